-------------------------------- MODULE Noise --------------------------------
(***************************************************************************)
(* How much noise an operation may leave.  The noise of a ciphertext is    *)
(* what separates its phase (c0 + sum of c_i*s_i) from the exact encoding  *)
(* of its slots at its scale; sizes are bounds on the number of bits of    *)
(* its largest coefficient.                                                *)
(*                                                                         *)
(* After(s, d, o, e) bounds the noise of the result of operation o, given  *)
(* the state s before it, the transition d, and e(i), the noise MEASURED   *)
(* in operand i.  Only what the operation itself may add is allowed: the   *)
(* bound is not accumulated over a program.                                *)
(*                                                                         *)
(* The configuration gives, in bits (tools/cfgs.py):                       *)
(*   nf       a fresh encryption                                           *)
(*   nk[k]    switching the components of k parties with rotation keys     *)
(*   nl[k]    relinearizing a product over k parties                       *)
(*   nr[k]    the rounding of k parties' components                        *)
(*   hl       half the logarithm of the ring degree, rounded up            *)
(***************************************************************************)
EXTENDS MKHE

\* bits of the coefficients of the encoded message (two norm of all of them, even)
Size(c, x) == Bits(VMaxAbs(c, x.val)) + Bits(x.m) + x.b
Float(c, x) == Size(c, x) - 46                     \* encoders work with floating point
Col(tab, x) == tab[Max(1, Min(Len(tab), Cardinality(x.ids)))]
Max3(x, y, z) == Max(x, Max(y, z))

\* division by the primes between two levels, of a noise of n bits
RECURSIVE QBits(_, _, _)
QBits(c, hi, lo) == IF hi <= lo THEN 0 ELSE c.qb[hi + 1] + QBits(c, hi - 1, lo)
Scaled(c, n, hi, x) == IF hi = x.lev THEN n ELSE Max(n + 1 - QBits(c, hi, x.lev), Col(c.nr, x)) + 1

\* ring products: |a*b| <= ||a||*||b||, and the message's two norm is at most its largest slot
ProdNoise(c, x, ex, y, ey) == Max3(Size(c, x) + ey + c.hl, Size(c, y) + ex + c.hl, ex + ey + 2 * c.hl) + 1

MulNoise(c, x, ex, y, ey, z) ==
  IF c.scheme = "ckks" THEN Max(ProdNoise(c, x, ex, y, ey), Col(c.nl, z)) + 1
  ELSE Max(Max(ex, ey) + c.tb + 2 * c.hl + (Bits(Cardinality(z.ids)) \div 2) + 5, Col(c.nl, z)) + 1

After(s, d, o, e(_)) ==
  LET c == s.c
      z == d.s.ct[d.t]
      x == s.ct[o.a]
      own ==
        CASE o.op \in {"enc", "encpt", "encinto"} -> c.nf
          [] o.op = "zero" -> 0
          [] o.op \in {"copy", "pad", "pdec", "drop", "dropin"} -> e(o.a)
          [] o.op \in {"add", "sub"} ->
               LET y == s.ct[o.b]  cmp == CmpS(x.m, x.b, y.m, y.b) IN
               (IF ~Ckks(s) \/ cmp = 0 THEN Max(e(o.a), e(o.b))
                ELSE LET hi == IF cmp > 0 THEN x ELSE y  lo == IF cmp > 0 THEN y ELSE x
                         eh == IF cmp > 0 THEN e(o.a) ELSE e(o.b)  el == IF cmp > 0 THEN e(o.b) ELSE e(o.a)
                     IN Max(eh, el + Max(0, hi.b - lo.b + Bits(hi.m))))
               + 1
          [] o.op \in {"mul", "mulh", "mulks"} ->
               LET y == s.ct[o.b] IN
               IF Ckks(s) THEN Scaled(c, MulNoise(c, x, e(o.a), y, e(o.b), z), Min(x.lev, y.lev), z)
               ELSE MulNoise(c, x, e(o.a), y, e(o.b), z)
          [] o.op = "rot" -> IF Steps(s, o.k) = {} THEN e(o.a)
                             ELSE Max(e(o.a), Col(c.nk, x) + Bits(Cardinality(Steps(s, o.k)) - 1)) + 1
          [] o.op \in {"roth", "conj"} -> Max(e(o.a), Col(c.nk, x)) + 1
          [] o.op \in {"resc", "rescin", "rescto"} -> Scaled(c, e(o.a), x.lev, z)
          [] o.op \in {"cmul", "cmulin"} ->
               LET cb == Max(1, Bits(Max(Abs(o.re), Abs(o.im))) - Bits(o.den) + 2)
                   q  == IF Fractional(o) THEN c.qb[x.lev + 1] + 1 ELSE 0
               IN Max(e(o.a) + cb + q, IF q = 0 THEN 0 ELSE Max(Size(c, x) + 1, Size(c, x) + cb + q - 50)) + 1
          [] o.op = "pmul" ->
               LET p == s.pt[o.pt]  sp == Size(c, p) IN
               Scaled(c, Max3(e(o.a) + sp + c.hl, Size(c, x) + Max(1, sp - 46) + c.hl, e(o.a) + Max(1, sp - 46) + 2 * c.hl) + 1, x.lev, z)
          [] OTHER -> z.nb
      \* scales that stem from divisions: what they differ by, and the rounding of their ratio to an integer
      drift == IF Ckks(s) /\ o.op \in {"add", "sub"} /\ z.dr > 0
               THEN LET y == s.ct[o.b]  cmp == CmpS(x.m, x.b, y.m, y.b)
                        hi == IF cmp > 0 THEN x ELSE y  lo == IF cmp > 0 THEN y ELSE x
                        ratio == hi.b - lo.b + Bits(hi.m) - Bits(lo.m) - 1
                        size == Max(VMaxAbs(c, x.val), VMaxAbs(c, y.val)) IN
                    Bits(size) + Bits(z.m) + z.b + Max(Bits(z.dr) + 1 - c.db, IF cmp = 0 THEN -1000 ELSE -ratio)
               ELSE 0
  IN Max3(own, drift, IF Ckks(s) THEN Float(c, z) + 1 ELSE 0) + 1
=============================================================================
