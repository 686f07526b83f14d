-------------------------------- MODULE RNS ---------------------------------
(***************************************************************************)
(* Conversions between residue systems, and digit decomposition (C17).     *)
(*                                                                         *)
(* The state is one call of the real code: its operation, levels, primes,  *)
(* the residues of its operands and of its result, coefficient by          *)
(* coefficient.  A call is right when the integer relation of its          *)
(* operation holds; relations are stated over integers of any size         *)
(* (BigNat).  The integers themselves, and the quotients of congruences,   *)
(* are supplied with the record as certificates: they are not believed,    *)
(* the equations they make checkable are checked.                          *)
(*                                                                         *)
(* pr lists the primes: those of Q, then those of P (for the integer       *)
(* scheme: Q, QMul, P).  Levels count from zero.                           *)
(*                                                                         *)
(* RNSGen enumerates the calls to make; this module judges them.           *)
(***************************************************************************)
EXTENDS BigNat, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Seg(from, n) == [i \in 1..n |-> from + i]
QI(c) == Seg(0, c.lq + 1)                          \* the primes of Q in use
PI(c) == Seg(c.nq + c.nm, c.lp + 1)                \* the primes of P in use
Primes(c, idx) == [i \in DOMAIN idx |-> c.pr[idx[i]]]

\* block number c.blk of c.alpha consecutive primes (of Q, or of Q and QMul), cut off at the level
Block(c, top) == Seg(c.blk * c.alpha, Mn((c.blk + 1) * c.alpha, top) - c.blk * c.alpha)

Src(c) == CASE c.op = "upQP" -> QI(c)
            [] c.op = "upPQ" -> PI(c)
            [] c.op = "upQR" -> Seg(0, c.nq)
            [] c.op = "decomp" -> Block(c, c.lq + 1)
            [] c.op = "decompR" -> Block(c, c.nq + c.nm)
Dst(c) == CASE c.op = "upQP" -> PI(c)
            [] c.op = "upPQ" -> QI(c)
            [] c.op = "upQR" -> Seg(0, c.nq + c.nm)
            [] c.op \in {"decomp", "decompR"} -> QI(c) \o PI(c)
Keep(c) == CASE c.op \in {"downQ", "downQntt"} -> QI(c)
             [] c.op = "downP" -> PI(c)
             [] c.op = "quant" -> Seg(0, c.nq)
Drop(c) == CASE c.op \in {"downQ", "downQntt"} -> PI(c)
             [] c.op = "downP" -> QI(c)
             [] c.op = "quant" -> Seg(c.nq, c.nm)

Times(v, m) == IF v = 0 THEN <<>> ELSE IF v = 1 THEN m ELSE Mul(<<v>>, m)
\* within 2^-48 of the lower, or upper, end of 0..m-1: there the floating-point estimate of the
\* multiple of m may be off by one
NearZero(x, m) == Lt(Shl48(x), m)
NearTop(x, m)  == Lt(Shl48(m), Add(Shl48(x), m))
Edge(x, m, v) == v = 1 \/ (v = 2 /\ NearZero(x, m)) \/ (v = 0 /\ NearTop(x, m))

(***************************************************************************)
(* Extension: the result represents the same integer X in 0..m-1 (v = 1),  *)
(* or, at the very ends only, X - m (v = 0) or X + m (v = 2).              *)
(***************************************************************************)
UpOk(c, x, src, dst, m) ==
  /\ Lt(x.X, m)
  /\ \A i \in DOMAIN src : Cong(x.X, x.in[i], c.pr[src[i]], x.ci[i])
  /\ x.v \in 0..2 /\ Edge(x.X, m, x.v)
  /\ LET y == Add(x.X, Times(x.v, m)) IN
     \A i \in DOMAIN dst : Cong(y, Add(x.out[i], m), c.pr[dst[i]], x.co[i])

(***************************************************************************)
(* Division by the product m of the dropped primes: with V the integer     *)
(* represented (times c.t), the result c satisfies m*c + e = V for the     *)
(* remainder e, the same for every prime, within one unit of the quotient. *)
(***************************************************************************)
DownOk(c, x, keep, drop, m) ==
  /\ Lt(x.E, m)
  /\ \A i \in DOMAIN drop : Cong(x.E, Mul(c.t, x.ind[i]), c.pr[drop[i]], x.cd[i])
  /\ x.u \in 0..2
  /\ LET e == Add(x.E, Times(x.u, m)) IN
     \A i \in DOMAIN keep : Cong(Add(Mul(m, x.out[i]), e), Add(Mul(c.t, x.ink[i]), m), c.pr[keep[i]], x.ck[i])

(***************************************************************************)
(* The integer scheme's rescaling of an operand from Q to QMul, then to    *)
(* both: the quotient of QMul*X by Q, within one unit.                     *)
(***************************************************************************)
RescaleOk(c, x) ==
  LET Qm == Prod(Primes(c, Seg(0, c.nq)))  M == Prod(Primes(c, Seg(c.nq, c.nm))) IN
  /\ Lt(x.X, Qm) /\ Lt(x.E, Qm)
  /\ \A i \in 1..c.nq : Cong(x.X, x.in[i], c.pr[i], x.ci[i])
  /\ Mul(M, x.X) = Add(Mul(Qm, x.C), x.E)
  /\ x.u \in 0..2 /\ x.v \in 0..2 /\ Edge(x.C, M, x.v)
  /\ LET y == Add(Add(x.C, OfInt(x.u)), Times(x.v, M)) IN
     \A i \in 1..(c.nq + c.nm) : Cong(y, Add(Add(x.out[i], <<1>>), M), c.pr[i], x.co[i])

(***************************************************************************)
(* The external product: digits D of the operand, times the rows of the    *)
(* second operand, summed and divided by the special primes.               *)
(* c.a[k], c.dig[i][k] = [X, ci], c.bg[i][j][k], c.co[k] = [E, u, cd, ck, out] *)
(***************************************************************************)
ExtOk(c) ==
  LET n == c.n
      qi == QI(c)  pi == PI(c)
      all == qi \o pi
      m == Prod(Primes(c, pi))
      nb == Len(c.bg)
      top == IF c.op = "ext" THEN c.lq + 1 ELSE c.nq + c.nm
      blk(i) == Block([c EXCEPT !.blk = i - 1], top)
      \* neg[i][j][k]: the negative of bg[i][j][k], checked
      NegOk == \A i \in 1..nb : \A j \in DOMAIN all : \A k \in 1..n :
                  Cong(Add(c.bg[i][j][k], c.neg[i][j][k]), <<>>, c.pr[all[j]], [s |-> 0, k |-> c.nk[i][j][k]])
      DigOk == \A i \in 1..nb :
                  LET b == blk(i)  mb == Prod(Primes(c, b)) IN
                  \A k \in 1..n : /\ Lt(c.dig[i][k].X, mb)
                                  /\ \A j \in DOMAIN b : Cong(c.dig[i][k].X, c.a[k][b[j]], c.pr[b[j]], c.dig[i][k].ci[j])
      \* coefficient k of the sum, modulo prime number j
      Term(i, j, k, l) == LET d == c.dig[i][l].X IN
                          IF d = <<>> THEN <<>>
                          ELSE IF l <= k THEN Mul(d, c.bg[i][j][k - l + 1]) ELSE Mul(d, c.neg[i][j][n + k - l + 1])
      RECURSIVE Sum(_, _, _, _)
      Sum(i, j, k, l) == IF i > nb THEN <<>> ELSE IF l > n THEN Sum(i + 1, j, k, 1) ELSE Add(Term(i, j, k, l), Sum(i, j, k, l + 1))
  IN /\ nb = (IF c.op = "ext" THEN (c.lq + c.alpha) \div c.alpha ELSE 2 * ((c.lq + c.alpha) \div c.alpha))
     /\ NegOk /\ DigOk
     /\ \A k \in 1..n :
          LET x == c.co[k] IN
          /\ Lt(x.E, m) /\ x.u \in 0..2
          /\ \A j \in DOMAIN pi : Cong(x.E, Sum(1, Len(qi) + j, k, 1), c.pr[pi[j]], x.cd[j])
          /\ \A j \in DOMAIN qi : Cong(Add(Mul(m, x.out[j]), Add(x.E, Times(x.u, m))), Add(Sum(1, j, k, 1), m), c.pr[qi[j]], x.ck[j])

Right(c) ==
  /\ c.frame = <<>>
  /\ IF c.op \in {"ext", "extR"} THEN ExtOk(c)
     ELSE IF c.op = "rescale" THEN \A k \in DOMAIN c.co : RescaleOk(c, c.co[k])
     ELSE IF c.op \in {"downQ", "downQntt", "downP", "quant"}
     THEN LET keep == Keep(c)  drop == Drop(c)  m == Prod(Primes(c, drop)) IN
          \A k \in DOMAIN c.co : DownOk(c, c.co[k], keep, drop, m)
     ELSE LET src == Src(c)  dst == Dst(c)  m == Prod(Primes(c, src)) IN
          \A k \in DOMAIN c.co : UpOk(c, c.co[k], src, dst, m)

VARIABLES case, verdict
vars == <<case, verdict>>
Init == case \in DOMAIN Cases /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET c == Cases[case]  ok == c.res = "ok" /\ Right(c) IN
            /\ verdict' = (IF ok THEN "right" ELSE "wrong")
            /\ (IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> c.num, op |-> c.op])))
         /\ UNCHANGED case
Next == Judge
Spec == Init /\ [][Next]_vars
Exact == verdict # "wrong"
=============================================================================
