-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* The defining relations of generated keys (C21).                         *)
(*                                                                         *)
(* WORLDS: parameters with their common references, coefficient by         *)
(* coefficient: [cfg, n, nq, np, nm, alpha, t, pr, added, crs: sequence of *)
(* [idx, rows], raw: the first row of reference 0 as it is stored].        *)
(* CASES: one generated key each, with the integers behind its secrets,    *)
(* its noise, and quotients as certificates (see BigNat).                  *)
(*                                                                         *)
(* Every relation has the form, for row i, modulo every prime,             *)
(*      key_i + t * a_i = g * G_i + e                                      *)
(* with t, g small polynomials (secrets, or images of secrets), a_i a row  *)
(* of a common reference, G_i the gadget, e the noise: small, the same     *)
(* integers for every prime, not all zero.  Which t, a, g, G belong to     *)
(* which key is what this module specifies.                                *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, Json, IOUtils

Worlds == ndJsonDeserialize(IOEnv.WORLDS)
Cases == ndJsonDeserialize(IOEnv.CASES)
World(w) == Worlds[CHOOSE i \in DOMAIN Worlds : Worlds[i].w = w]
Ref(W, idx) == W.crs[CHOOSE i \in DOMAIN W.crs : W.crs[i].idx = idx].rows
\* amounts with a reference at operation `at': powers of two below half the degree, and those added before
HasRef(W, idx, at) == \/ \E j \in 0..20 : 2^j = idx /\ 2 * idx < W.n
                      \/ \E i \in DOMAIN W.added : W.added[i][1] = idx /\ W.added[i][2] < at
Rows(W) == (W.nq + W.alpha - 1) \div W.alpha
Abs(x) == IF x < 0 THEN -x ELSE x

(************************ small polynomials ********************************)
\* image of s under X -> X^g, modulo X^n + 1
Image(s, g, n) ==
  LET to(i) == ((i - 1) * g) % (2 * n)                    \* exponent the coefficient goes to
      src(k) == CHOOSE i \in 1..n : to(i) % n = k - 1
  IN TLCEval([k \in 1..n |-> LET i == src(k) IN IF to(i) >= n THEN -s[i] ELSE s[i]])
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) == IF e = 0 THEN 1 ELSE (b * PowMod(b, e - 1, m)) % m
\* rotation by k is X -> X^(5^k); its inverse is rotation by -k
Undo(W, k) == LET h == W.n \div 2 IN PowMod(5, (h - (k % h)) % h, 2 * W.n)
Conj(W) == 2 * W.n - 1
Neg(s) == [k \in DOMAIN s |-> -s[k]]
Zeros(W) == [k \in 1..W.n |-> 0]

(******************************* gadgets ***********************************)
QPr(W) == [j \in 1..W.nq |-> W.pr[j]]
MPr(W) == [j \in 1..W.nm |-> W.pr[W.nq + j]]
PPr(W) == [j \in 1..W.np |-> W.pr[W.nq + W.nm + j]]
QP(W) == QPr(W) \o PPr(W)
Blk(W, i, top) == {j \in 1..top : (j - 1) \div W.alpha = i - 1}
\* G_i: P modulo the primes of block i, zero modulo all others
Plain(W, i, P) == [j \in 1..(W.nq + W.np) |-> IF j \in Blk(W, i, W.nq) THEN P ELSE <<>>]
\* the integer scheme's gadget, half h: one integer for all primes (checked by GadgetOk)
Scaled(W, G) == [j \in 1..(W.nq + W.np) |-> G]
\* G = floor(T * Ti * (Q*QMul/Qi) * P / QMul) where Ti is the inverse of Q*QMul/Qi modulo Qi
GadgetOk(W, h, i, g) ==
  LET Q == QPr(W)  M == MPr(W)
      blk == Blk(W, i, W.nq)
      base == IF h = 1 THEN Q ELSE M
      lo == (i - 1) * W.alpha
      Qi == Prod([j \in 1..W.alpha |-> base[lo + j]])
      rest == Mul(Prod([j \in 1..(W.nq - W.alpha) |-> base[IF j <= lo THEN j ELSE j + W.alpha]]), Prod(IF h = 1 THEN M ELSE Q))
  IN /\ Lt(g.ti, Qi)
     /\ Mul(g.ti, rest) = Add(<<1>>, Mul(g.k, Qi))
     /\ Mul(Mul(Mul(W.t, g.ti), rest), Prod(PPr(W))) = Add(Mul(g.g, Prod(M)), g.rem)
     /\ Lt(g.rem, Prod(M))

(******************************* noise *************************************)
NoiseOk(W, e) == /\ \A k \in 1..W.n : Abs(e[k]) <= W.bound
                 /\ \E k \in 1..W.n : e[k] # 0

(****************************** relations **********************************)
Off == 4096
\* sum over l with sign: coefficient k of t*a modulo one prime; the parts with positive and negative sign
RECURSIVE Part(_, _, _, _, _, _)
Part(t, a, n, k, l, sign) ==
  IF l > n THEN <<>>
  ELSE LET src == IF l <= k THEN k - l + 1 ELSE n + k - l + 1
           c == sign * t[l] * (IF l <= k THEN 1 ELSE -1)
           rest == Part(t, a, n, k, l + 1, sign)
       IN IF c <= 0 THEN rest ELSE Add(rest, IF c = 1 THEN a[src] ELSE Mul(<<c>>, a[src]))
\* one row: key[j][k], a[j][k] residues (a = <<>>: no such term), t and g small, G[j], e; q: quotients
RowOk(W, key, t, a, g, G, row) ==
  /\ NoiseOk(W, row.e)
  /\ \A j \in DOMAIN key : \A k \in 1..W.n :
       LET p == QP(W)[j]
           ta(sign) == IF a = <<>> THEN <<>> ELSE Part(t, a[j], W.n, k, 1, sign)
           gg(x) == IF x <= 0 THEN <<>> ELSE Mul(OfInt(x), G[j])
           lhs == Add(Add(Add(key[j][k], OfInt(Off)), ta(1)), gg(-g[k]))
           rhs == Add(Add(OfInt(Off + row.e[k]), ta(-1)), gg(g[k]))
       IN Lt(key[j][k], p) /\ Cong(lhs, rhs, p, row.q[j][k])
AllRows(W, x, t, a, g, G(_)) ==
  /\ Len(x.rows) = Rows(W)
  /\ \A i \in 1..Rows(W) : RowOk(W, x.rows[i].key, t, IF a = <<>> THEN <<>> ELSE a[i], g, G(i), x.rows[i])

\* the residues of a secret are those of its integers
SmallOk(W, s, res) == \A j \in DOMAIN res : \A k \in 1..W.n :
                        IF s[k] >= 0 THEN res[j][k] = OfInt(s[k]) ELSE Add(res[j][k], OfInt(-s[k])) = QP(W)[j]
Weight(s) == Cardinality({k \in DOMAIN s : s[k] # 0})
SecretOk(W, c) ==
  /\ SmallOk(W, c.s, c.sres)
  /\ CASE c.how = "gauss" -> NoiseOk(W, c.s)
       [] c.how = "sparse" -> (\A k \in 1..W.n : c.s[k] \in {-1, 0, 1}) /\ Weight(c.s) = c.hw
       [] OTHER -> \A k \in 1..W.n : c.s[k] \in {-1, 0, 1}

Relation(W, c) ==
  LET P == Prod(PPr(W))
      Gp(i) == Plain(W, i, P)
      s == c.s  r == c.r
  IN CASE c.kind = "sk" -> SecretOk(W, c)
       [] c.kind = "pk" -> c.pk1 = W.raw /\ RowOk(W, c.rows[1].key, s, c.pk1, Zeros(W), Gp(1), c.rows[1])
       [] c.kind = "b" -> AllRows(W, c, s, Ref(W, 0), Zeros(W), Gp)
       [] c.kind = "d" -> AllRows(W, c, r, Ref(W, 0), s, Gp)
       [] c.kind = "v" -> AllRows(W, c, s, Ref(W, -1), Neg(r), Gp)
       [] c.kind = "rot" -> AllRows(W, c, Image(s, Undo(W, c.idx), W.n), Ref(W, c.idx), s, Gp)
       [] c.kind = "cjk" -> AllRows(W, c, s, Ref(W, -2), Image(s, Conj(W), W.n), Gp)
       [] c.kind = "swk" -> AllRows(W, c, Zeros(W), <<>>, s, Gp)
       \* the integer scheme: two halves, the second on a reference of its own
       [] c.kind \in {"b1", "b2"} -> AllRows(W, c, s, Ref(W, IF c.kind = "b1" THEN 0 ELSE -3), Zeros(W), Gp)
       [] c.kind \in {"d1", "d2", "s1", "s2"} ->
            LET h == IF c.kind \in {"d1", "s1"} THEN 1 ELSE 2
                G(i) == Scaled(W, c.gad[i].g)
            IN /\ \A i \in 1..Rows(W) : GadgetOk(W, h, i, c.gad[i])
               /\ IF c.kind \in {"d1", "d2"} THEN AllRows(W, c, r, Ref(W, IF h = 1 THEN 0 ELSE -3), s, G)
                  ELSE AllRows(W, c, Zeros(W), <<>>, s, G)

\* the tags of a key: its party, and for rotation keys the amount
TagOk(W, c) == c.tagid = c.id /\ (c.kind = "rot" => c.tagidx = c.idx)

\* rotation amounts: those with a reference, after adjusting negative ones; others are refused
Amount(W, k) == IF k < 0 THEN k % (W.n \div 2) ELSE k
Expect(W, c) == IF c.kind = "rot" /\ ~HasRef(W, Amount(W, c.arg), c.at) THEN "refused" ELSE "ok"

Right(c) ==
  LET W == World(c.w) IN
  /\ c.frame = <<>>
  /\ c.res = Expect(W, c)
  /\ c.res = "ok" => /\ (c.kind = "rot" => c.idx = Amount(W, c.arg))
                     /\ TagOk(W, c)
                     /\ Relation(W, c)

VARIABLES case, verdict
Init == case \in DOMAIN Cases /\ verdict = "none"
Judge == /\ verdict = "none"
         /\ LET ok == Right(Cases[case]) IN
            /\ verdict' = (IF ok THEN "right" ELSE "wrong")
            /\ (IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([n |-> Cases[case].num])))
         /\ UNCHANGED case
Next == Judge
Spec == Init /\ [][Next]_<<case, verdict>>
Satisfied == verdict # "wrong"
=============================================================================
