------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Randomness over the life of a system (C15), and what generic encryption *)
(* and decryption do (C24).                                                *)
(*                                                                         *)
(* EVENTS is a history: in the order in which they were drawn, every small *)
(* polynomial the implementation sampled - noise of keys and ciphertexts,  *)
(* encryption secrets, secret keys -, fingerprints of every row of every   *)
(* reference, and the observations of encryptions and decryptions.         *)
(* The machine consumes the history; its state is what has been drawn so   *)
(* far (through First, the place where a value was first seen) and the     *)
(* statistics of every kind of sample.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.EVENTS)
Focus == IOEnv.PROP                     \* C15, C14 (references only), C07 (what changed only) or C24
Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Sum(f) == SumTo(f, Len(f))
Count(v, x) == Cardinality({i \in DOMAIN v : v[i] = x})

(*************************** freshness *************************************)
\* a value and its negative are the same randomness
Norm(v) == LET nz == {i \in DOMAIN v : v[i] # 0}
               lead == IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
           IN IF lead = 0 THEN v ELSE IF v[lead] > 0 THEN v ELSE [i \in DOMAIN v |-> -v[i]]
Key(e) == IF e.k = "ref" THEN <<"ref", e.fp>> ELSE <<"small", Norm(e.v)>>
\* sparse secrets may coincide by chance; everything else has enough entropy
Drawn == {i \in DOMAIN Ev : Ev[i].k = "ref" \/ (Ev[i].k = "vec" /\ ~(Ev[i].cls = "sparse" /\ Ev[i].hw < 24))}
Keys == [i \in Drawn |-> TLCEval(Key(Ev[i]))]
AllFresh == Cardinality({Keys[i] : i \in Drawn}) = Cardinality(Drawn)
Fresh(i) == AllFresh \/ \A j \in Drawn : j < i => Keys[j] # Keys[i]

(*************************** each sample ***********************************)
Bound(e) == (6 * e.sig) \div 10         \* the truncation of the noise; sig: ten times the standard deviation
Ternary(v) == \A i \in DOMAIN v : v[i] \in {-1, 0, 1}
VecOk(e) ==
  /\ e.same                             \* the same integers modulo every prime
  /\ \E i \in DOMAIN e.v : e.v[i] # 0
  /\ CASE e.cls = "gauss" -> \A i \in DOMAIN e.v : Abs(e.v[i]) <= Bound(e)
       [] e.cls = "sparse" -> Ternary(e.v) /\ Len(e.v) - Count(e.v, 0) = e.hw
       [] OTHER -> Ternary(e.v)

(*************************** all samples of a kind *************************)
\* For M samples of a standard distribution the tolerances below are seven standard deviations.
TolVar(M) == IF M < 2450 THEN 1000 ELSE IF M < 9800 THEN 20 ELSE IF M < 39200 THEN 10 ELSE 5
TolHalf(M) == IF M < 1225 THEN 1000 ELSE IF M < 4900 THEN 10 ELSE IF M < 30625 THEN 5 ELSE 2
Empty == [M |-> 0, sum |-> 0, sq |-> 0, zero |-> 0, sig |-> 0, p |-> 0, cls |-> ""]
Balanced(s) == Abs(s.sum) <= 46000 /\ s.sum * s.sum <= 49 * (s.sq + 1)
PoolOk(s) ==
  CASE s.cls = "gauss" -> LET v == s.sig * s.sig + 8          \* a hundred times the variance, rounding included
                          IN Balanced(s) /\ Abs(100 * s.sq - v * s.M) <= TolVar(s.M) * v * (s.M \div 100 + 1)
    [] s.cls = "dist" -> Balanced(s) /\ 100 * Abs(10 * s.zero - s.p * s.M) <= 10 * TolHalf(s.M) * (s.M + 1)
    [] s.cls = "ternary" ->             \* no density was requested: anything between a quarter and 55 in a hundred zeros
         Balanced(s) /\ (s.M >= 1225 => 100 * s.zero >= (25 - TolHalf(s.M)) * s.M /\ 100 * s.zero <= (55 + TolHalf(s.M)) * s.M)
    [] s.cls = "sparse" -> Balanced(s)
    [] s.cls = "ref" -> Abs(2 * s.sum - s.M) <= 46000 /\ (2 * s.sum - s.M) * (2 * s.sum - s.M) <= 49 * s.M       \* as many above one half as below
    [] OTHER -> FALSE

(************************* encryption and decryption ***********************)
\* worst case of e*u + e0 + e1*s
Worst(e) == Bound(e) * (1 + 2 * e.n)
NoiseOk(e) == e.same /\ \A i \in DOMAIN e.v : Abs(e.v[i]) <= Worst(e)
EncOk(e) == /\ e.frame = <<>>
            /\ e.res = "ok" /\ e.lev = Min2(e.pl, e.cl) /\ e.ntt = e.cn /\ Range(e.ids) = Range(e.need)
            /\ NoiseOk(e)
DecOk(e) == /\ e.frame = <<>>
            /\ e.res = (IF Range(e.need) \subseteq Range(e.keys) THEN "ok" ELSE "refused")
            /\ e.res = "ok" => e.lev = Min2(e.pl, e.cl) /\ e.ntt = e.pn /\ NoiseOk(e)
\* the own component is folded into component zero, the others stay
PdecOk(e) == /\ e.frame = <<>>
             /\ e.res = "ok" /\ e.lev = e.cl /\ e.ntt = e.cn /\ Range(e.ids) = Range(e.need) \ {e.id} /\ NoiseOk(e)

EventOk(i) ==
  LET e == Ev[i] IN
  CASE Focus = "C07" -> e.k \in {"enc", "dec", "pdec"} => e.frame = <<>>
    [] e.k = "vec" -> Focus = "C15" => VecOk(e) /\ (i \in Drawn => Fresh(i))
    [] e.k = "ref" -> Focus \in {"C14", "C15"} => Fresh(i)
    [] e.k = "enc" -> Focus = "C24" => EncOk(e)
    [] e.k = "dec" -> Focus = "C24" => DecOk(e)
    [] e.k = "pdec" -> Focus = "C24" => PdecOk(e)
    [] OTHER -> FALSE

VARIABLES at, pools
vars == <<at, pools>>
Old(p) == IF p \in DOMAIN pools THEN pools[p] ELSE Empty
Fold(s, e) == IF e.k = "ref" THEN [s EXCEPT !.M = @ + e.cnt, !.sum = @ + e.hi, !.cls = "ref"]
              ELSE [M |-> s.M + Len(e.v), sum |-> s.sum + Sum(e.v), sq |-> s.sq + Sum([i \in DOMAIN e.v |-> e.v[i] * e.v[i]]), zero |-> s.zero + Count(e.v, 0),
                    sig |-> e.sig, p |-> e.p, cls |-> e.cls]
Init == at = 0 /\ pools = [p \in {} |-> Empty]
Consume == /\ at < Len(Ev) /\ at' = at + 1
           /\ LET e == Ev[at'] IN
              /\ (IF EventOk(at') THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> e.num])))
              /\ pools' = IF Focus \in {"C14", "C15"} /\ e.k \in {"vec", "ref"} /\ e.pool # "" THEN (e.pool :> Fold(Old(e.pool), e)) @@ pools ELSE pools
Close == /\ at = Len(Ev) /\ at' = at + 1 /\ UNCHANGED pools
         /\ \A p \in DOMAIN pools : IF PoolOk(pools[p]) THEN TRUE ELSE PrintT("POOL " \o ToJson([pool |-> p, s |-> pools[p]]))
         /\ PrintT("DONE " \o ToJson([pools |-> Cardinality(DOMAIN pools), drawn |-> Cardinality(Drawn)]))
Next == Consume \/ Close
Spec == Init /\ [][Next]_vars
=============================================================================
