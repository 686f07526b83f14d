------------------------------- MODULE MKAlg -------------------------------
(***************************************************************************)
(* The multi-key algorithms themselves, as the library implements them,    *)
(* over symbolic polynomials: TLC expands them and compares coefficients,  *)
(* so each law below holds for ALL ring elements, secrets, references,     *)
(* digits and moduli, given what the other modules check on real data:     *)
(*   - every generated key satisfies its defining relation (Keys.tla, C21) *)
(*   - digits recombine with the gadget, digit-wise products included, and *)
(*     the division by the special primes rounds (RNS.tla, C17)            *)
(*                                                                         *)
(* An external product of digits D(x) (or digit-wise products D(x)D(y))    *)
(* with a key row vector  k = sum_w p_w * w + p_g * P * gadget + e  is     *)
(*   <D(x)D(y), k>/P = sum_w p_w * X(xy, w) + p_g * x * y + E(xy, e) + rho *)
(* where X(xy, w) is one unknown per digit vector and reference w, and     *)
(* E(xy, e), rho are noise: small unknowns, one per use.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NP,      \* number of parties
          NR,      \* number of slot rotations (a power of two)
          Bug      \* "none", or a deliberate mistake that must be noticed (self-test)

(************************** symbolic polynomials ****************************)
\* a symbol is <<kind, name, rotation, conjugated>>; a monomial maps symbols to exponents;
\* a polynomial maps monomials to non-zero integers
Fold(S, base, op(_, _)) ==
  LET RECURSIVE F(_, _)
      F(T, acc) == IF T = {} THEN acc ELSE LET x == CHOOSE x \in T : TRUE IN F(T \ {x}, op(x, acc))
  IN F(S, base)
Zero == [m \in {} |-> 0]
One == [m \in {<<>>} |-> 1]
Const(k) == IF k = 0 THEN Zero ELSE [m \in {<<>>} |-> k]
Sym(kind, name) == LET x == <<kind, name, 0, 0>> IN [m \in {[y \in {x} |-> 1]} |-> 1]
At(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Add(p, q) == LET D == DOMAIN p \cup DOMAIN q
                 nz == {m \in D : At(p, m) + At(q, m) # 0}
             IN [m \in nz |-> At(p, m) + At(q, m)]
Scale(k, p) == IF k = 0 THEN Zero ELSE [m \in DOMAIN p |-> k * p[m]]
Neg(p) == Scale(-1, p)
Sub(p, q) == Add(p, Neg(q))
MMul(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
                (IF x \in DOMAIN a THEN a[x] ELSE 0) + (IF x \in DOMAIN b THEN b[x] ELSE 0)]
Mul(p, q) == Fold((DOMAIN p) \X (DOMAIN q), Zero,
                  LAMBDA x, acc : LET m == MMul(x[1], x[2]) IN Add(acc, [y \in {m} |-> p[x[1]] * q[x[2]]]))
Sum(S, f(_)) == Fold(S, Zero, LAMBDA x, acc : Add(f(x), acc))
\* the automorphism "rotate by k, conjugate c times"; it acts on symbols
AutS(x, k, c) == <<x[1], x[2], (x[3] + k) % NR, (x[4] + c) % 2>>
AutM(m, k, c) == LET D == {AutS(x, k, c) : x \in DOMAIN m}
                 IN IF D = {} THEN <<>> ELSE [y \in D |-> m[CHOOSE x \in DOMAIN m : AutS(x, k, c) = y]]
Aut(p, k, c) == LET D == {AutM(m, k, c) : m \in DOMAIN p}
                IN [y \in D |-> p[CHOOSE m \in DOMAIN p : AutM(m, k, c) = y]]

(********************************* keys *************************************)
I(i) == ToString(i)
S(i) == Sym("s", "s" \o I(i))
R(i) == Sym("r", "r" \o I(i))
\* a key row vector: reference -> coefficient, coefficient of P * gadget, its noise
Key(w, p, g, e) == [w |-> w, p |-> p, g |-> g, e |-> e]
KeyB(i) == Key("a", Neg(S(i)), Zero, "b" \o I(i))                  \* b = -s a + e
KeyD(i) == Key("a", Neg(R(i)), S(i), "d" \o I(i))                  \* d = -r a + s g + e
KeyV(i) == Key("u", Neg(S(i)), IF Bug = "vsign" THEN R(i) ELSE Neg(R(i)), "v" \o I(i))  \* v = -s u - r g + e
KeyU    == Key("u", One, Zero, "")                                   \* the reference itself: no noise
KeyA(w) == Key(w, One, Zero, "")
\* rotation by k: rk = -s' a_k + s g + e with s' = s rotated by -k
KeyRot(i, k) == Key("a" \o I(k), Neg(Aut(S(i), IF Bug = "rotdir" THEN k ELSE NR - k, 0)), S(i), "k" \o I(i) \o "." \o I(k))
\* conjugation: cjk = -s a + conj(s) g + e
KeyCjk(i) == Key("ac", Neg(S(i)), IF Bug = "cjk" THEN S(i) ELSE Aut(S(i), 0, 1), "j" \o I(i))

(**************************** external products *****************************)
\* digits: [n |-> name, v |-> the value they represent]; tag distinguishes roundings
Dig(n, v) == [n |-> n, v |-> v]
Pair(x, y) == [n |-> x.n \o "*" \o y.n, v |-> Mul(x.v, y.v)]
Part(x, key, kappa) == Add(Mul(key.p, Sym("X", x.n \o "|" \o key.w)),
                       Add(Mul(kappa, Mul(key.g, x.v)),
                           IF key.e = "" THEN Zero ELSE Sym("E", x.n \o "|" \o key.e)))
Rho(tag) == Sym("E", "rho " \o tag)
Ext(x, key, tag) == Add(Part(x, key, One), Rho(tag))

(****************************** ciphertexts *********************************)
\* [c |-> constant part, p |-> party -> component]
Ct(n, T) == [c |-> Sym("c", n \o "0"), p |-> [i \in T |-> Sym("c", n \o I(i))]]
Phase(x) == Add(x.c, Sum(DOMAIN x.p, LAMBDA i : Mul(S(i), x.p[i])))
Comp(x, i) == IF i \in DOMAIN x.p THEN x.p[i] ELSE Zero

(* Multiplication.  kappa is 1, or the factor the integer scheme's quantization multiplies with:   *)
(* there operands are lifted to a larger modulus, and gadget and products carry that factor.       *)
MulRelin(x, y, kappa) ==
  LET T0 == DOMAIN x.p   T1 == DOMAIN y.p
      dx(i) == Dig("x" \o I(i), x.p[i])
      dy(i) == Dig("y" \o I(i), y.p[i])
      \* X = sum_j D(x_j) d_j ; Y = sum_i D(y_i) b_i : used against one more digit vector below
      ExtX(i) == Add(Sum(T0, LAMBDA j : Part(Pair(dx(j), dy(i)), KeyD(j), kappa)), Rho("X" \o I(i)))
      ExtY(j) == Add(Sum(T1, LAMBDA i : Part(Pair(dx(j), dy(i)), KeyB(i), kappa)), Rho("Y" \o I(j)))
      t(j) == Dig("t" \o I(j), ExtY(j))
      cross(i) == Mul(kappa, Add(Mul(x.c, Comp(y, i)), Mul(Comp(x, i), y.c)))
      one(i) == Add(cross(i),
                Add(IF i \in T1 THEN ExtX(i) ELSE Zero,
                    IF i \in T0 /\ ~(Bug = "noU" /\ i \notin T1) THEN Ext(t(i), KeyU, "U" \o I(i)) ELSE Zero))
  IN [c |-> Add(Mul(kappa, Mul(x.c, y.c)), Sum(T0, LAMBDA j : Ext(t(j), KeyV(j), "V" \o I(j)))),
      p |-> [i \in T0 \cup T1 |-> one(i)]]

(* Rotation by k with one key: switch under the rotated-back secret, then permute everything. *)
Rotate(x, k, n) ==
  LET d(i) == Dig("z" \o n \o I(i), x.p[i])
      T == DOMAIN x.p
  IN [c |-> Aut(Add(x.c, Sum(T, LAMBDA i : Ext(d(i), KeyRot(i, k), "r" \o n \o I(i)))), k, 0),
      p |-> [i \in T |-> Aut(Ext(d(i), KeyA("a" \o I(k)), "a" \o n \o I(i)), k, 0)]]
\* any amount, by powers of two from the lowest bit up
RECURSIVE Compose(_, _, _)
Compose(x, k, bit) ==
  IF k = 0 THEN x
  ELSE Compose(IF k % 2 = 1 THEN Rotate(x, bit, I(bit)) ELSE x, k \div 2, 2 * bit)
(* Conjugation: permute first, then switch back. *)
Conj(x) ==
  LET T == DOMAIN x.p
      q == [i \in T |-> Aut(x.p[i], 0, 1)]
      d(i) == Dig("w" \o I(i), q[i])
  IN [c |-> Add(Aut(x.c, 0, 1), Sum(T, LAMBDA i : Ext(d(i), KeyCjk(i), "c" \o I(i)))),
      p |-> [i \in T |-> Ext(d(i), KeyA("ac"), "e" \o I(i))]]
\* addition of different party sets
AddCt(x, y, sg) ==
  [c |-> Add(x.c, Scale(sg, y.c)),
   p |-> [i \in DOMAIN x.p \cup DOMAIN y.p |->
            IF i \notin DOMAIN y.p THEN x.p[i]
            ELSE IF i \notin DOMAIN x.p THEN (IF Bug = "sub" THEN y.p[i] ELSE Scale(sg, y.p[i]))
            ELSE Add(x.p[i], Scale(sg, y.p[i]))]]
Partial(x, i) == [c |-> Add(x.c, IF Bug = "partial" /\ Cardinality(DOMAIN x.p) = 2 THEN x.p[i] ELSE Mul(S(i), x.p[i])), p |-> [j \in DOMAIN x.p \ {i} |-> x.p[j]]]
RECURSIVE PartialAll(_, _)
PartialAll(x, order) == IF order = <<>> THEN x ELSE PartialAll(Partial(x, Head(order)), Tail(order))

(********************************* laws *************************************)
\* p is noise only: every term has exactly one noise symbol, times at most one secret
NoiseMono(m) ==
  LET e == {x \in DOMAIN m : x[1] = "E"}   o == DOMAIN m \ e IN
  /\ Cardinality(e) = 1 /\ \A x \in e : m[x] = 1
  /\ Cardinality(o) <= 1 /\ \A x \in o : x[1] \in {"s", "r"} /\ m[x] = 1
Noise(p) == \A m \in DOMAIN p : NoiseMono(m) /\ p[m] \in {-1, 1}
Terms(p) == Cardinality(DOMAIN p)

Parties == 1..NP
VARIABLES T0, T1, k
vars == <<T0, T1, k>>
Init == /\ T0 \in SUBSET Parties /\ T1 \in SUBSET Parties /\ k \in 0..(NR - 1)
        /\ (k # 0 => T1 = {})          \* rotations take one operand
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

X == Ct("x", T0)
Y == Ct("y", T1)
Kap == Sym("kappa", "kappa")

\* a product's phase is the product of the phases, up to noise whose terms the model counts: this
\* is the law Noise.tla charges multiplications with
MulLaw == k = 0 =>
  LET z == MulRelin(X, Y, One)
      r == Sub(Phase(z), Mul(Phase(X), Phase(Y)))
      n0 == Cardinality(T0)  n1 == Cardinality(T1)
  IN /\ DOMAIN z.p = T0 \cup T1
     /\ Noise(r)
     /\ Terms(r) <= 2 * n0 * n1 + n1 + 4 * n0
\* the same for the integer scheme, whose products carry a factor
MulLawInt == k = 0 =>
  LET z == MulRelin(X, Y, Kap)
  IN Noise(Sub(Phase(z), Mul(Kap, Mul(Phase(X), Phase(Y)))))
\* squares: one object twice
SquareLaw == k = 0 /\ T0 = T1 =>
  LET z == MulRelin(X, X, One) IN Noise(Sub(Phase(z), Mul(Phase(X), Phase(X))))
RotLaw == T1 = {} /\ k # 0 =>
  LET z == Rotate(X, k, "") IN
  DOMAIN z.p = T0 /\ LET r == Sub(Phase(z), Aut(Phase(X), k, 0)) IN
  \A m \in DOMAIN r : Cardinality({x \in DOMAIN m : x[1] = "E"}) = 1
ComposeLaw == T1 = {} =>
  LET z == Compose(X, k, 1)
      r == Sub(Phase(z), Aut(Phase(X), k, 0))
  IN DOMAIN z.p = T0 /\ \A m \in DOMAIN r : Cardinality({x \in DOMAIN m : x[1] = "E"}) = 1
ConjLaw == T1 = {} /\ k = 0 =>
  LET z == Conj(X) IN DOMAIN z.p = T0 /\ Noise(Sub(Phase(z), Aut(Phase(X), 0, 1)))
AddLaw == k = 0 =>
  /\ Phase(AddCt(X, Y, 1)) = Add(Phase(X), Phase(Y))
  /\ Phase(AddCt(X, Y, -1)) = Sub(Phase(X), Phase(Y))
\* all orders of partial decryption end in the phase
Orders(T) == {f \in [1..Cardinality(T) -> T] : \A i, j \in 1..Cardinality(T) : i # j => f[i] # f[j]}
PartialLaw == T1 = {} /\ k = 0 =>
  \A o \in Orders(T0) : LET z == PartialAll(X, o) IN DOMAIN z.p = {} /\ z.c = Phase(X)
=============================================================================
