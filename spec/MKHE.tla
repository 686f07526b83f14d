-------------------------------- MODULE MKHE --------------------------------
(***************************************************************************)
(* The multi-key homomorphic encryption library as a state machine.        *)
(*                                                                         *)
(* A state s is a record                                                   *)
(*   c    : the configuration (constant during a run)                      *)
(*   keys : sequence of every key ever generated, in order; a key is       *)
(*          [k, id, sk, idx, crs]: its kind, its party, the secret key it  *)
(*          belongs to (index into keys), the rotation amount, and the     *)
(*          version of the common reference it was made with               *)
(*   reg  : the registries (two of every kind): a set of                   *)
(*          [k, r, id, idx, key] entries                                   *)
(*   crs  : rotation amounts that have a common reference -> version       *)
(*   ct   : the ciphertexts, in order of creation                          *)
(*   hst  : hoisted forms            pt : encoded plaintexts               *)
(*   sets : party-set objects                                              *)
(*                                                                         *)
(* A ciphertext is [ids, kep, nz, lev, m, b, dr, nb, val, ok, st]: its party   *)
(* set; for every party the secret key it is encrypted under (0: the       *)
(* component is zero, any key does); nz: parties whose component is        *)
(* certainly not zero; its level; its scale m*2^b; how many  *)
(* primes the scale was divided by (each contributes a relative error of   *)
(* at most 2^-c.db); a bound on log2 of the noise; the slots; whether the  *)
(* slots are determined at all (FALSE: wrong keys were used, or noise      *)
(* budget or precision exhausted); and a stamp that changes whenever the   *)
(* ciphertext is modified in place.                                        *)
(*                                                                         *)
(* Do(s, o) is the transition function: the only definition of what every  *)
(* operation o of the public interface does.  It returns                   *)
(*   [s   : the next state,                                                *)
(*    res : "ok" | "refused" (the call panics or returns an error) |       *)
(*          "any" (not specified: misuse, or a tie decided by rounding),   *)
(*    t   : what the operation must produce: 0 nothing, or the index of    *)
(*          the ciphertext it made or changed]                             *)
(***************************************************************************)
EXTENDS Slots

Range(f) == {f[x] : x \in DOMAIN f}

Init0(c) == [c |-> c, keys |-> <<>>, reg |-> {}, 
             crs |-> [i \in {2^j : j \in 0..(c.logn - 2)} |-> 1],
             ct |-> <<>>, hst |-> <<>>, pt |-> <<>>, sets |-> <<>>, clk |-> 1]

Ckks(s) == s.c.scheme = "ckks"

(****************************** registries *********************************)
Entries(s, k, r, id, idx) == {e \in s.reg : e.k = k /\ e.r = r /\ e.id = id /\ e.idx = idx}
HasKey(s, k, r, id, idx) == Entries(s, k, r, id, idx) # {}
KeyOf(s, k, r, id, idx) == (CHOOSE e \in Entries(s, k, r, id, idx) : TRUE).key
Register(reg, ks, r, i) ==   \* register key i of the sequence of keys ks in registry r
  LET k == ks[i] IN
  {e \in reg : ~(e.k = k.k /\ e.r = r /\ e.id = k.id /\ e.idx = k.idx)}
     \cup {[k |-> k.k, r |-> r, id |-> k.id, idx |-> k.idx, key |-> i]}
RECURSIVE RegisterAll(_, _, _, _)
RegisterAll(reg, ks, r, seq) ==
  IF seq = <<>> THEN reg ELSE RegisterAll(Register(reg, ks, r, Head(seq)), ks, r, Tail(seq))

(***************************** key generation ******************************)
MkKey(k, id, sk, idx, crs) == [k |-> k, id |-> id, sk |-> sk, idx |-> idx, crs |-> crs]
AddKey(s, key) == [s EXCEPT !.keys = Append(@, key)]
Pow2s(c) == [j \in 1..(c.logn - 1) |-> 2^(j - 1)]     \* 1, 2, .., half/2
DefKeys(s, u) == [j \in 1..(s.c.logn - 1) |->
                    MkKey("rot", s.keys[u].id, u, 2^(j - 1), s.crs[2^(j - 1)])]

(******************************** scales ***********************************)
\* sign of m1*2^b1 - m2*2^b2 for positive m1, m2 < 2^12
CmpS(m1, b1, m2, b2) ==
  LET d == b1 - b2 IN
  IF d > 14 THEN 1 ELSE IF d < -14 THEN -1
  ELSE IF d >= 0 THEN LET x == m1 * 2^d IN IF x > m2 THEN 1 ELSE IF x < m2 THEN -1 ELSE 0
  ELSE LET y == m2 * 2^(-d) IN IF m1 > y THEN 1 ELSE IF m1 < y THEN -1 ELSE 0

RECURSIVE OddPart(_, _)
OddPart(m, b) == IF m % 2 = 0 THEN OddPart(m \div 2, b + 1) ELSE <<m, b>>

\* does (noise, value, drift) leave the slots determined at this level and scale?
Precise(c, lev, m, b, dr, nb, val) ==
  /\ m < 4096
  /\ VMaxAbs(c, val) < 2^24
  /\ Bits(VMaxAbs(c, val)) + Bits(m) + b + 3 <= c.logq[lev + 1]
  /\ nb + 7 <= b + Bits(m) - 1
  /\ Bits(VMaxAbs(c, val)) + Bits(dr) + 6 <= c.db

BfvOk(c, nb) == nb + c.tb + 3 < c.logq[c.maxlev + 1]

Settle(c, x) ==    \* recompute ok
  [x EXCEPT !.ok = @ /\ (IF c.scheme = "ckks" THEN Precise(c, x.lev, x.m, x.b, x.dr, x.nb, x.val)
                         ELSE BfvOk(c, x.nb) /\ (c.t # 0 \/ VMaxAbs(c, x.val) < c.vmax))]

(************************** results and refusals ***************************)
Refuse(s) == [s |-> s, res |-> "refused", t |-> 0]
Unspec(s) == [s |-> s, res |-> "any", t |-> 0]
Done(s)   == [s |-> s, res |-> "ok", t |-> 0]
NewCt(s, x) ==
  IF x.m >= 4096 THEN Unspec(s) ELSE     \* outside the scales this model represents
  LET y == Settle(s.c, [x EXCEPT !.st = s.clk]) IN
  [s |-> [s EXCEPT !.ct = Append(@, y), !.clk = @ + 1], res |-> "ok", t |-> Len(s.ct) + 1]
ChgCt(s, i, x) ==
  IF x.m >= 4096 THEN Unspec(s) ELSE
  LET y == Settle(s.c, [x EXCEPT !.st = s.clk]) IN
  [s |-> [s EXCEPT !.ct[i] = y, !.clk = @ + 1], res |-> "ok", t |-> i]

(******************************* encryption ********************************)
\* u: the public key's index; the result involves exactly its party
EncCt(s, u, lev, m, b, val) ==
  LET id == s.keys[u].id IN
  [ids |-> {id}, kep |-> [i \in {id} |-> s.keys[u].sk], lev |-> lev, m |-> m, b |-> b, dr |-> 0, cq |-> 0,
   nb |-> s.c.fb, val |-> val, ok |-> TRUE, st |-> 0, nz |-> {id}]

(************************ binary operations: parties ***********************)
Agree(x, y) == \A i \in x.ids \cap y.ids : x.kep[i] = y.kep[i] \/ x.kep[i] = 0 \/ y.kep[i] = 0
MergeKep(x, y) == [i \in x.ids \cup y.ids |->
                     IF i \notin y.ids THEN x.kep[i]
                     ELSE IF i \notin x.ids THEN y.kep[i]
                     ELSE IF x.kep[i] = 0 THEN y.kep[i] ELSE x.kep[i]]

\* log2 of the integer factor between two scales, and whether alignment is exact
AddCt(s, x, y, neg) ==
  LET c == s.c
      cmp == CmpS(x.m, x.b, y.m, y.b)
      hi == IF cmp >= 0 THEN x ELSE y
      lo == IF cmp >= 0 THEN y ELSE x
      d  == hi.b - lo.b
      \* ratio hi/lo = hi.m*2^d/lo.m
      big == d > 18
      num == IF d >= 0 THEN hi.m * 2^(Min(d, 18)) ELSE hi.m
      den == IF d >= 0 THEN lo.m ELSE lo.m * 2^(Min(-d, 18))
      exact == cmp = 0 \/ (big /\ lo.m = 1 /\ hi.dr + lo.dr = 0) \/ d > 30 \/
               (~big /\ d >= -18 /\ hi.dr = 0 /\ lo.dr = 0 /\ num % den = 0)
      rb == IF cmp = 0 THEN 0 ELSE d + Bits(hi.m)
  IN [ids |-> x.ids \cup y.ids, kep |-> MergeKep(x, y), lev |-> Min(x.lev, y.lev),
      m |-> hi.m, b |-> hi.b, dr |-> x.dr + y.dr,
      cq |-> IF x.cq = y.cq /\ (cmp = 0 \/ x.cq = 0) THEN x.cq ELSE -1,
      nb |-> IF Ckks(s) THEN Max(hi.nb, lo.nb + Max(rb, 0)) + 1 ELSE Max(x.nb, y.nb) + 1,
      val |-> IF x.ok /\ y.ok THEN (IF neg THEN VSub(c, x.val, y.val) ELSE VAdd(c, x.val, y.val)) ELSE VZero(c),
      ok |-> x.ok /\ y.ok /\ Agree(x, y) /\ (Ckks(s) => exact), st |-> 0,
      nz |-> (x.nz \ y.ids) \cup (y.nz \ x.ids)]

(******************************* rescaling *********************************)
\* divide by primes while level > 0 and scale/prime >= target/2.
\* Returns [x |-> ciphertext, tie |-> a comparison was decided by rounding].
\* cq: 0 if the scale is exactly m*2^b; j if it is that times (the prime of level j-1)/2^qb[j]; else -1.
\* A prime multiplied into a scale cancels exactly when it is divided out.
RECURSIVE RescaleCt(_, _, _, _, _)
RescaleCt(c, x, tm, tb, tie) ==
  IF x.lev = 0 THEN [x |-> x, tie |-> tie]
  ELSE LET cmp == CmpS(x.m, x.b - c.qb[x.lev + 1], tm, tb - 1)
           cancel == x.cq = x.lev + 1
       IN IF cmp < 0 THEN [x |-> x, tie |-> tie]
          ELSE RescaleCt(c, [x EXCEPT !.b = @ - c.qb[x.lev + 1], !.lev = @ - 1, !.dr = @ + 1, !.cq = IF cancel THEN 0 ELSE -1,
                                      !.nb = Max(@ - c.qb[x.lev + 1], c.rb) + 1], tm, tb, tie \/ (cmp = 0 /\ ~cancel))

(***************************** multiplication ******************************)
(* A zero component may be represented by non-zero residues (q for 0), so a key-switched zero     *)
(* component can be an encryption of zero under the key of the evaluation key that was used.       *)
Under(s, kep, key(_)) == [i \in DOMAIN kep |-> IF kep[i] = 0 THEN s.keys[key(i)].sk ELSE kep[i]]
RlkOk(s, r, x) == \* the registered relinearization keys belong to the keys the ciphertext uses
  \A i \in x.ids : LET k == s.keys[KeyOf(s, "rlk", r, i, 0)] IN x.kep[i] = 0 \/ k.sk = x.kep[i]
\* one relinearization key per party, so both operands must agree with it
MulVal(s, x, y) ==
  IF x.ok /\ y.ok /\ (~Ckks(s) \/ (VMaxAbs(s.c, x.val) < 16384 /\ VMaxAbs(s.c, y.val) < 16384))
                  /\ (Ckks(s) \/ s.c.t # 0 \/ (VMaxAbs(s.c, x.val) < 16384 /\ VMaxAbs(s.c, y.val) < 16384))
  THEN [ok |-> TRUE, val |-> VMul(s.c, x.val, y.val)]
  ELSE [ok |-> FALSE, val |-> VZero(s.c)]
MulCt(s, r, x, y) ==   \* before rescaling
  LET c == s.c
      v == MulVal(s, x, y)
      sz(z) == Bits(VMaxAbs(c, z.val)) + Bits(z.m) + z.b
      k  == Cardinality(x.ids \cup y.ids)
      nbc == Max(Max(x.nb + sz(y), y.nb + sz(x)), Max(c.ksb + Bits(k), x.nb + y.nb)) + c.logn + 2
      nbb == Max(Max(x.nb, y.nb) + c.tb + 2 * c.logn + Bits(k) + 3, c.ksb + Bits(k)) + 1
      rk(i) == KeyOf(s, "rlk", r, i, 0)
  IN [ids |-> x.ids \cup y.ids, kep |-> Under(s, MergeKep(x, y), rk), lev |-> Min(x.lev, y.lev),
      m |-> x.m * y.m, b |-> x.b + y.b, dr |-> x.dr + y.dr, cq |-> IF x.cq = 0 /\ y.cq = 0 THEN 0 ELSE -1,
      nb |-> IF Ckks(s) THEN nbc ELSE nbb,
      val |-> v.val,
      ok |-> x.ok /\ y.ok /\ v.ok /\ Agree(x, y) /\ RlkOk(s, r, x) /\ RlkOk(s, r, y)
             \* the product must fit before it is divided
             /\ (Ckks(s) => /\ x.m * y.m < 4096
                            /\ Bits(VMaxAbs(c, v.val)) + Bits(x.m * y.m) + x.b + y.b + 3 <= c.logq[Min(x.lev, y.lev) + 1]),
      st |-> 0, nz |-> {}]
HasRlk(s, r, x) == \A i \in x.ids : HasKey(s, "rlk", r, i, 0)

ProdRes(s, z) ==     \* rescale a product to the default scale, and store it
  IF ~Ckks(s) THEN NewCt(s, z)
  ELSE LET q == RescaleCt(s.c, z, 1, s.c.sb, FALSE)
       IN IF q.tie THEN Unspec(s) ELSE NewCt(s, q.x)

(******************************** rotation *********************************)
Bit(k, j) == (k \div (2^j)) % 2
\* the rotation amounts whose keys are used
Steps(s, k) == IF Norm(s.c, k) = 0 THEN {}
               ELSE IF Norm(s.c, k) \in DOMAIN s.crs THEN {Norm(s.c, k)}
               ELSE {2^j : j \in {j \in 0..(s.c.logn - 2) : Bit(Norm(s.c, k), j) = 1}}
HasRot(s, r, x, st) == \A i \in x.ids : \A j \in st : HasKey(s, "rot", r, i, j)
RotOk(s, r, x, st) == \A i \in x.ids : \A j \in st :
  LET k == s.keys[KeyOf(s, "rot", r, i, j)] IN
  /\ k.crs = s.crs[j]
  /\ IF x.kep[i] # 0 THEN k.sk = x.kep[i]
     ELSE \A jj \in st : k.sk = s.keys[KeyOf(s, "rot", r, i, jj)].sk
KsNb(s, x, cnt) == Max(x.nb, s.c.ksr + Bits(Cardinality(x.ids)) + cnt) + 1
RotCt(s, r, x, k) ==
  LET st == Steps(s, k)
      rk(i) == KeyOf(s, "rot", r, i, CHOOSE j \in st : TRUE) IN
  [x EXCEPT !.kep = IF st = {} THEN @ ELSE Under(s, @, rk),
            !.nb = IF st = {} THEN @ ELSE KsNb(s, x, Bits(Cardinality(st))),
            !.val = IF x.ok THEN VRot(s.c, x.val, k) ELSE @,
            !.ok = @ /\ RotOk(s, r, x, st) /\ RotDefined(s.c, k)]
CjkOk(s, r, x) == \A i \in x.ids :
  LET k == s.keys[KeyOf(s, "cjk", r, i, 0)] IN x.kep[i] = 0 \/ k.sk = x.kep[i]
ConjCt(s, r, x) == LET ck(i) == KeyOf(s, "cjk", r, i, 0) IN
                   [x EXCEPT !.kep = Under(s, @, ck), !.nb = KsNb(s, x, 0),
                    !.val = IF x.ok THEN VConj(s.c, x.val) ELSE @,
                    !.ok = @ /\ CjkOk(s, r, x)]

(***************************** constants ***********************************)
\* constant (re + i*im)/den; kind "int": an integer type, the scale is kept
Fractional(o) == o.den # 1 /\ (o.re % o.den # 0 \/ o.im % o.den # 0)
CMulCt(s, x, o) ==
  LET c == s.c
      big == Bits(VMaxAbs(c, x.val)) + Bits(Max(Abs(o.re), Abs(o.im)))
      fit == x.ok /\ big <= 29 \* the products stay within TLC's integers
      fr == Fractional(o)
      cb == Bits(Max(Abs(o.re), Abs(o.im))) - Bits(o.den) + 2
  IN [x EXCEPT !.val = IF fit THEN VCMul(c, x.val, o.re, o.im, o.den) ELSE @,
               !.ok = fit /\ VCDiv(c, x.val, o.re, o.im, o.den),
               !.nz = IF o.re = 0 /\ o.im = 0 THEN {} ELSE @,
               !.b = IF fr THEN @ + c.qb[x.lev + 1] ELSE @,
               !.dr = IF fr THEN @ + 1 ELSE @,
               !.cq = IF fr THEN (IF @ = 0 /\ x.m \in {1, 2, 4} THEN x.lev + 1 ELSE -1) ELSE @,
               !.nb = @ + Max(cb, 1) + (IF fr THEN c.qb[x.lev + 1] ELSE 0)]
PMulCt(s, x, p) ==
  LET c == s.c
      fit == x.ok /\ VMaxAbs(c, x.val) < 16384 /\ VMaxAbs(c, p.val) < 16384
      v == VMul(c, x.val, p.val)
      sz == Bits(VMaxAbs(c, p.val)) + Bits(p.m) + p.b
  IN [x EXCEPT !.val = IF fit THEN v ELSE @,
               !.m = @ * p.m, !.b = @ + p.b, !.nz = {}, !.cq = IF @ = 0 THEN 0 ELSE -1,
               !.nb = Max(@ + sz, Bits(VMaxAbs(c, x.val)) + Bits(x.m) + x.b + 2) + c.logn + 2,
               !.ok = fit /\ x.m * p.m < 4096
                      /\ Bits(VMaxAbs(c, v)) + Bits(x.m * p.m) + x.b + p.b + 3 <= c.logq[x.lev + 1]]

(***************************** hoisted forms *******************************)
HstFor(s, h, i) == \* hoisted form h was computed from the present contents of ciphertext i
  s.hst[h].of = i /\ s.hst[h].st = s.ct[i].st
\* hoisted form given (h > 0) or computed on the fly (h = 0)
HstIds(s, h, x) == h = 0 \/ x.ids \subseteq s.hst[h].ids
HstLev(s, h, lev) == h = 0 \/ s.hst[h].lev >= lev

(****************************** the operations *****************************)
SetIds(s, x) == Range(x)

Do1(s, o) ==
  CASE o.op = "gensk" ->
         Done(AddKey(s, MkKey("sk", o.id, Len(s.keys) + 1, 0, 0)))
    [] o.op = "alias" -> \* secret key o.sk relabelled as party o.id's (crs = 1 marks it)
         Done(AddKey(s, MkKey("sk", o.id, Len(s.keys) + 1, o.sk, 1)))
    [] o.op = "genpk"  -> Done(AddKey(s, MkKey("pk", s.keys[o.sk].id, o.sk, 0, 0)))
    [] o.op = "genrlk" -> Done(AddKey(s, MkKey("rlk", s.keys[o.sk].id, o.sk, 0, 0)))
    [] o.op = "gencjk" -> Done(AddKey(s, MkKey("cjk", s.keys[o.sk].id, o.sk, 0, 0)))
    [] o.op = "genrot" ->
         LET k == IF o.idx < 0 \/ ("far" \in DOMAIN o /\ o.far < 0) THEN Norm(s.c, o.idx) ELSE o.idx IN
         IF k = 0 THEN Unspec(s)
         ELSE IF k \notin DOMAIN s.crs THEN Refuse(s)
         ELSE Done(AddKey(s, MkKey("rot", s.keys[o.sk].id, o.sk, k, s.crs[k])))
    [] o.op = "gendef" ->
         LET ks == s.keys \o DefKeys(s, o.sk)
             n == Len(s.keys)
         IN Done([s EXCEPT !.keys = ks,
                           !.reg = RegisterAll(@, ks, o.r, [j \in 1..(s.c.logn - 1) |-> n + j])])
    [] o.op = "join" -> \* a party generates and registers all its keys
         LET n == Len(s.keys)
             k0 == s.keys \o <<MkKey("sk", o.id, n + 1, 0, 0), MkKey("pk", o.id, n + 1, 0, 0),
                               MkKey("rlk", o.id, n + 1, 0, 0), MkKey("cjk", o.id, n + 1, 0, 0)>>
             s1 == [s EXCEPT !.keys = k0]
             ks == k0 \o DefKeys(s1, n + 1)
         IN Done([s EXCEPT !.keys = ks,
                           !.reg = RegisterAll(@, ks, 1, [j \in 1..(3 + s.c.logn) |-> n + j])])
    [] o.op = "keycopy" -> Done(s)   \* the copy is discarded
    [] o.op = "reg" -> Done([s EXCEPT !.reg = Register(@, s.keys, o.r, o.key)])
    [] o.op = "del" -> Done([s EXCEPT !.reg = {e \in @ : ~(e.k = o.k /\ e.r = o.r /\ e.id = o.id /\ e.idx = o.idx)}])
    [] o.op = "get" -> IF HasKey(s, o.k, o.r, o.id, o.idx) THEN Done(s) ELSE Refuse(s)
    [] o.op = "addcrs" ->
         Done([s EXCEPT !.crs = [i \in DOMAIN @ \cup {o.idx} |->
                  IF i = o.idx THEN (IF i \in DOMAIN s.crs THEN s.crs[i] + 1 ELSE 1) ELSE s.crs[i]]])
    \* ------------------------------------------------ encryption
    [] o.op = "encode" -> Done([s EXCEPT !.pt = Append(@, [val |-> o.val, lev |-> o.lev, m |-> o.m, b |-> o.b])])
    [] o.op = "reenc" -> Done([s EXCEPT !.pt[o.pt] = [val |-> o.val, lev |-> @.lev, m |-> o.m, b |-> o.b]])    \* in place, at the plaintext's level
    [] o.op = "enc" -> NewCt(s, EncCt(s, o.pk, s.c.maxlev, 1, s.c.sb, o.val))
    [] o.op = "encpt" ->
         LET p == s.pt[o.pt] IN NewCt(s, EncCt(s, o.pk, Min(p.lev, o.lev), p.m, p.b, p.val))
    [] o.op = "encinto" ->   \* the receiver is an existing ciphertext of that party alone
         IF s.ct[o.a].ids # {s.keys[o.pk].id} THEN Unspec(s)
         ELSE ChgCt(s, o.a, EncCt(s, o.pk, Min(s.c.maxlev, s.ct[o.a].lev), 1, s.c.sb, o.val))
    \* ------------------------------------------------ arithmetic
    [] o.op = "add" -> NewCt(s, AddCt(s, s.ct[o.a], s.ct[o.b], FALSE))
    [] o.op = "sub" -> NewCt(s, AddCt(s, s.ct[o.a], s.ct[o.b], TRUE))
    [] o.op = "mul" ->
         LET x == s.ct[o.a]  y == s.ct[o.b] IN
         IF ~HasRlk(s, o.r, x) \/ ~HasRlk(s, o.r, y) THEN Refuse(s)
         ELSE ProdRes(s, MulCt(s, o.r, x, y))
    [] o.op = "mulh" ->     \* hoisted forms o.ha, o.hb (0: not given)
         LET x == s.ct[o.a]  y == s.ct[o.b] IN
         IF ~HasRlk(s, o.r, x) \/ ~HasRlk(s, o.r, y) \/ ~HstIds(s, o.ha, x) \/ ~HstIds(s, o.hb, y) THEN Refuse(s)
         ELSE LET z == MulCt(s, o.r, x, y)
                  good == (o.ha = 0 \/ HstFor(s, o.ha, o.a)) /\ (o.hb = 0 \/ HstFor(s, o.hb, o.b))
              IN ProdRes(s, [z EXCEPT !.ok = @ /\ good])
    [] o.op = "mulks" ->    \* the key-switching primitive itself: no rescaling
         LET x == s.ct[o.a]  y == s.ct[o.b] IN
         IF ~HasRlk(s, o.r, x) \/ ~HasRlk(s, o.r, y) THEN Refuse(s)
         ELSE NewCt(s, MulCt(s, o.r, x, y))
    [] o.op = "rot" ->
         LET x == s.ct[o.a] IN
         IF ~HasRot(s, o.r, x, Steps(s, o.k)) THEN Refuse(s) ELSE NewCt(s, RotCt(s, o.r, x, o.k))
    [] o.op = "roth" ->
         LET x == s.ct[o.a]  k == Norm(s.c, o.k) IN
         IF k = 0 THEN NewCt(s, x)
         ELSE IF k \notin DOMAIN s.crs /\ ~Ckks(s) /\ x.ids = {} THEN Unspec(s)   \* nothing needs the reference
         ELSE IF k \notin DOMAIN s.crs \/ ~HasRot(s, o.r, x, {k}) \/ ~HstIds(s, o.h, x) THEN Refuse(s)
         ELSE LET z == RotCt(s, o.r, x, o.k) IN NewCt(s, [z EXCEPT !.ok = @ /\ HstFor(s, o.h, o.a)])
    [] o.op = "conj" ->
         LET x == s.ct[o.a] IN
         IF \E i \in x.ids : ~HasKey(s, "cjk", o.r, i, 0) THEN Refuse(s) ELSE NewCt(s, ConjCt(s, o.r, x))
    [] o.op = "hoist" -> Done([s EXCEPT !.hst = Append(@, [of |-> o.a, st |-> s.ct[o.a].st, ids |-> s.ct[o.a].ids, lev |-> s.ct[o.a].lev])])
    \* ------------------------------------------------ levels and scales
    [] o.op = "drop" -> IF o.k > s.ct[o.a].lev THEN Unspec(s) ELSE NewCt(s, [s.ct[o.a] EXCEPT !.lev = @ - o.k])
    [] o.op = "dropin" -> IF o.k > s.ct[o.a].lev THEN Unspec(s) ELSE ChgCt(s, o.a, [s.ct[o.a] EXCEPT !.lev = @ - o.k])
    [] o.op \in {"resc", "rescin", "rescto"} -> \* target o.m*2^o.b; o.m <= 0: non-positive target
         LET x == s.ct[o.a] IN
         IF o.m <= 0 \/ x.m = 0 \/ x.lev = 0 THEN Refuse(s)
         ELSE LET q == RescaleCt(s.c, x, o.m, o.b, FALSE) IN
              IF q.tie THEN Unspec(s)
              ELSE IF o.op = "rescin" THEN ChgCt(s, o.a, q.x) ELSE NewCt(s, q.x)
    [] o.op = "setscale" -> ChgCt(s, o.a, [s.ct[o.a] EXCEPT !.m = o.m, !.ok = FALSE])
    [] o.op = "cmul" -> NewCt(s, CMulCt(s, s.ct[o.a], o))
    [] o.op = "cmulin" -> ChgCt(s, o.a, CMulCt(s, s.ct[o.a], o))
    [] o.op = "pmul" ->
         LET p == s.pt[o.pt]  x == s.ct[o.a] IN
         IF p.lev < x.lev THEN Unspec(s) ELSE ProdRes(s, PMulCt(s, x, p))
    \* ------------------------------------------------ containers
    [] o.op = "copy" -> NewCt(s, s.ct[o.a])
    [] o.op = "pad" ->
         LET x == s.ct[o.a]  new == Range(o.ids) \ x.ids IN
         ChgCt(s, o.a, [x EXCEPT !.ids = @ \cup new,
                                 !.kep = [i \in x.ids \cup new |-> IF i \in x.ids THEN x.kep[i] ELSE 0]])
    [] o.op = "zero" ->  \* a new ciphertext of the given parties: an encryption of zero nobody needs keys for
         NewCt(s, [ids |-> Range(o.ids), kep |-> [i \in Range(o.ids) |-> 0], lev |-> o.lev, m |-> 1, b |-> s.c.sb,
                   dr |-> 0, cq |-> 0, nb |-> 0, val |-> VZero(s.c), ok |-> TRUE, st |-> 0, nz |-> {}])
    [] o.op = "scribble" -> ChgCt(s, o.a, [s.ct[o.a] EXCEPT !.ok = FALSE])  \* the caller overwrites the object
    \* ------------------------------------------------ decryption
    [] o.op = "dec" -> \* with the secret keys o.sks (at most one per party)
         IF s.ct[o.a].ids \subseteq {s.keys[u].id : u \in Range(o.sks)} THEN Done(s) ELSE Refuse(s)
    [] o.op = "pdec" ->
         LET x == s.ct[o.a]  id == s.keys[o.sk].id IN
         IF id \notin x.ids THEN Refuse(s)
         ELSE ChgCt(s, o.a, [x EXCEPT !.ids = @ \ {id},
                                      !.kep = [i \in x.ids \ {id} |-> x.kep[i]],
                                      !.nz = @ \ {id},
                                      !.ok = @ /\ (x.kep[id] = 0 \/ x.kep[id] = o.sk)])
    \* ------------------------------------------------ party sets
    [] o.op = "snew"   -> Done([s EXCEPT !.sets = Append(@, {})])
    [] o.op = "sof"    -> Done([s EXCEPT !.sets = Append(@, s.ct[o.a].ids)])
    [] o.op = "sadd"   -> IF o.id = "0" THEN Refuse(s) ELSE Done([s EXCEPT !.sets[o.i] = @ \cup {o.id}])
    [] o.op = "srem"   -> Done([s EXCEPT !.sets[o.i] = @ \ {o.id}])
    [] o.op = "scopy"  -> Done([s EXCEPT !.sets = Append(@, s.sets[o.i])])
    [] o.op = "sunion" -> Done([s EXCEPT !.sets = Append(@, s.sets[o.i] \cup s.sets[o.j])])
    [] o.op = "sinter" -> Done([s EXCEPT !.sets = Append(@, s.sets[o.i] \cap s.sets[o.j])])
    \* ------------------------------------------------ several threads at once (see Trace.tla, Conc.tla)
    [] o.op = "par"    -> Done(s)
    [] OTHER -> Unspec(s)

\* a ciphertext whose scale was overwritten with zero is only good for showing that Rescale refuses it
Zeroed(s, o) == \/ "a" \in DOMAIN o /\ s.ct[o.a].m = 0 /\ o.op \notin {"resc", "rescin", "rescto"}
                \/ "b" \in DOMAIN o /\ o.op \in {"add", "sub", "mul", "mulh", "mulks"} /\ s.ct[o.b].m = 0
Do(s, o) == IF Zeroed(s, o) THEN Unspec(s) ELSE Do1(s, o)

SkRoot(s, u) == IF s.keys[u].crs = 1 THEN s.keys[u].idx ELSE u   \* the key an alias was made from

(* does decrypting ciphertext x with the secret keys sks (complete for its parties) give its value? *)
KeysRight(s, x, sks) == \A i \in x.ids : x.kep[i] = 0 \/ x.kep[i] \in sks
\* is a key in sks wrong for a party whose component is certainly not zero?
WrongKeyMatters(s, x, sks) == \E i \in x.nz : x.kep[i] # 0 /\ x.kep[i] \notin sks /\ s.keys[x.kep[i]].crs = 0
                                              /\ \A u \in sks : s.keys[u].id = i => SkRoot(s, u) # SkRoot(s, x.kep[i])

(* the secret keys an observer needs for x: one per party *)
Wit(s, x) == {IF x.kep[i] # 0 THEN x.kep[i]
              ELSE CHOOSE u \in DOMAIN s.keys : s.keys[u].k = "sk" /\ s.keys[u].id = i : i \in x.ids}
=============================================================================
