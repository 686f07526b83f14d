------------------------------ MODULE FreshGen ------------------------------
(***************************************************************************)
(* Draws histories of generic encryption and decryption for C15 and C24:   *)
(* plaintexts and ciphertexts in either representation, at any levels,     *)
(* new or reused, several encryptors and decryptors.  Public key 0 is one  *)
(* whose encryptions show the randomness they were made with.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Pr == ndJsonDeserialize(IOEnv.PROF)[1]
VARIABLES c, ops, cts, act
vars == <<c, ops, cts, act>>

R(S) == RandomElement(S)
RSeq(s) == s[R(DOMAIN s)]
Lev == IF R(1..3) = 1 THEN c.maxlev ELSE R(0..c.maxlev)
Emit(o) == ops' = Append(ops, o)

\* [lev, ntt, ids] of the ciphertexts made so far
Reusable(k) == {i \in DOMAIN cts : cts[i].pk = k}
Enc == /\ act = "enc"
       /\ \E k \in {R({0, 0, 1, 2, 3})}, via \in {RSeq(<<"rlwe", "rlwe", "rlwe", "msg", "new", "ptxt">>)} :
          \E o \in {[op |-> "enc", x |-> R(1..3), via |-> via, pk |-> k, style |-> RSeq(<<"zero", "small", "full", "full", "same">>),
                     pl |-> IF via = "rlwe" \/ (via = "ptxt" /\ ~c.bfv) THEN Lev ELSE c.maxlev, pn |-> via = "rlwe" /\ R(BOOLEAN),
                     cl |-> IF via = "new" \/ (c.bfv /\ via # "rlwe") THEN c.maxlev ELSE Lev, cn |-> via # "new" /\ R(BOOLEAN),
                     into |-> IF via # "new" /\ Reusable(k) # {} /\ R(1..4) = 1 THEN R(Reusable(k)) ELSE 0]} :
          LET cl == IF o.into = 0 THEN o.cl ELSE cts[o.into].lev
              cn == IF o.into = 0 THEN o.cn ELSE cts[o.into].ntt
              f == [lev |-> IF o.pl < cl THEN o.pl ELSE cl, ntt |-> cn, pk |-> k, pad |-> IF o.into = 0 THEN {} ELSE cts[o.into].pad]
          IN /\ Emit([o EXCEPT !.cl = cl, !.cn = cn])
             /\ cts' = Append([i \in DOMAIN cts |-> IF i = o.into THEN [cts[i] EXCEPT !.pk = -1] ELSE cts[i]], f)
Alive == {i \in DOMAIN cts : cts[i].pk > 0}
Need(i) == {cts[i].pk} \cup cts[i].pad
Dec == /\ act = "dec" /\ Alive # {} /\ UNCHANGED cts
       /\ \E i \in {R(Alive)} :
          \E o \in {[op |-> "dec", c |-> i, x |-> R(1..2), pl |-> Lev, pn |-> R(BOOLEAN), keys |-> IF R(1..4) = 1 THEN R(SUBSET (1..3)) ELSE Need(i) \cup R(SUBSET (1..3))]} :
          Emit(o)
Pdec == /\ act = "pdec" /\ Alive # {} /\ UNCHANGED cts
        /\ \E i \in {R(Alive)} : Emit([op |-> "pdec", c |-> i, x |-> R(1..2)])
\* components of further parties, zero
Pad == /\ act = "pad" /\ Alive # {}
       /\ \E i \in {R(Alive)} : \E P \in {R(SUBSET (1..3))} :
          /\ Emit([op |-> "pad", c |-> i, keys |-> P])
          /\ cts' = [cts EXCEPT ![i].pad = @ \cup (P \ {cts[i].pk})]
\* one more reference, for a small amount, one that agrees with a small one modulo a power of two, or any
Amount == CASE R(1..4) = 1 -> R((-9)..40)
            [] R(1..2) = 1 -> R((-9)..40) + R({-1, 1, 2, 3}) * 2 ^ R({7, 8, 9, 10, 12, 16, 20, 24})
            [] OTHER -> R((-1000000000)..1000000000)
Crs == act = "crs" /\ (\E k \in {Amount} : Emit([op |-> "crs", idx |-> k])) /\ UNCHANGED cts

Init == c = Cfgs[1] /\ ops = <<>> /\ cts = <<>> /\ act = "none"
Acts == IF Pr.refs THEN <<"crs">> ELSE <<"enc", "enc", "enc", "enc", "enc", "dec", "dec", "pdec", "pad", "crs">>
Start == /\ act = "none" /\ c' = Cfgs[R(DOMAIN Cfgs)] /\ act' = (IF Pr.refs THEN "crs" ELSE "enc") /\ UNCHANGED <<ops, cts>>
Choose == /\ act = "next" /\ UNCHANGED <<c, ops, cts>>
          /\ act' = IF Len(ops) >= Pr.len THEN "end" ELSE IF Alive = {} /\ ~Pr.refs THEN "enc" ELSE RSeq(Acts)
Do == act \notin {"none", "next", "end", "stop"} /\ (Enc \/ Dec \/ Pdec \/ Pad \/ Crs) /\ act' = "next" /\ UNCHANGED c
End == act = "end" /\ act' = "stop" /\ PrintT("HIST " \o ToJson([cfg |-> c.name, ops |-> ops])) /\ UNCHANGED <<c, ops, cts>>
Next == Start \/ Choose \/ Do \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
