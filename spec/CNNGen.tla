------------------------------- MODULE CNNGen -------------------------------
(* Draws the cases of C19. CFGS: the parameter configurations. *)
EXTENDS CNN

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
Layers == ndJsonDeserialize(IOEnv.PROF)[1].layers
Diags == ndJsonDeserialize(IOEnv.PROF)[1].diags       \* how many diagonals the first dense layer has
Telling == ndJsonDeserialize(IOEnv.PROF)[1].telling   \* only vectors that rotations change
VARIABLES phase, x

R(S) == RandomElement(S)
Party == {"p1", "p2", "p3"}
\* one vector: noise, a sparse one, a constant, a ramp, one single slot, zero
Vec(c, style, h) ==
  TLCEval(CASE style \in {"dense", "dense2"} -> [i \in 1..c.n |-> <<R(-h..h), IF h > 1 THEN R(-1..1) ELSE 0>>]
    [] style = "sparse" -> [i \in 1..c.n |-> IF R(1..12) = 1 THEN <<R(-h..h), 0>> ELSE <<0, 0>>]
    [] style = "const" -> LET z == R(1..h) IN [i \in 1..c.n |-> <<z, 0>>]
    [] style = "ramp" -> LET a == R(1..9) IN [i \in 1..c.n |-> <<((a * i) % (2 * h + 1)) - h, 0>>]
    [] style = "single" -> LET j == R(1..c.n) IN [i \in 1..c.n |-> IF i = j THEN <<h, 1>> ELSE <<0, 0>>]
    [] style = "zero" -> [i \in 1..c.n |-> <<0, 0>>])
AnyV(c) == Vec(c, R(IF Telling THEN {"dense", "ramp", "sparse"} ELSE {"dense", "dense2", "sparse", "const", "ramp", "single", "zero"}), 3)
Thin(c) == Vec(c, R({"sparse", "single"}), 1)
\* one owner for all, or one for each
Owners(n) == LET p == R(Party) IN IF R(1..3) = 1 THEN [i \in 1..n |-> R(Party)] ELSE [i \in 1..n |-> p]

Case(c) ==
  LET layer == R(IF c.maxlev >= 6 THEN {"net"} ELSE Range(Layers))
      net == layer = "net"
      nm == R(IF net THEN 1..2 ELSE Diags[1]..Diags[2])
      V(dummy) == IF net THEN Thin(c) ELSE AnyV(c)
  IN [cfg |-> c.name, layer |-> layer,
      v |-> V(1), pv |-> R(Party),
      ks |-> TLCEval(IF layer \in {"conv", "net"} THEN [i \in 1..4 |-> V(i)] ELSE <<>>), pks |-> TLCEval(Owners(4)),
      ms |-> TLCEval(IF layer \in {"fc1", "net"} THEN [i \in 1..nm |-> V(i)] ELSE <<>>), pms |-> TLCEval(Owners(nm)),
      b1 |-> IF layer \in {"fc1", "net"} THEN V(1) ELSE <<>>, pb1 |-> R(Party),
      m2 |-> IF layer \in {"fc2", "net"} THEN V(1) ELSE <<>>, pm2 |-> R(Party),
      b2 |-> IF layer \in {"fc2", "net"} THEN V(1) ELSE <<>>, pb2 |-> R(Party),
      mask |-> IF layer \in {"fc2", "net"} THEN (IF R(1..3) = 1 /\ ~net THEN V(1) ELSE [i \in 1..c.n |-> IF (i - 1) % 128 = 0 THEN <<1, 0>> ELSE <<0, 0>>]) ELSE <<>>,
      neg |-> R(BOOLEAN),                       \* common references for the negative rotations, or compositions
      dropv |-> IF net \/ layer = "fc2" THEN 0 ELSE R({0, 0, 0, 1}),   \* operands at lower levels
      dropm |-> IF net \/ layer = "fc2" THEN 0 ELSE R({0, 0, 0, 1}),
      again |-> R(BOOLEAN)]                     \* the layer is evaluated twice with the same contexts

Init == phase = 0 /\ x = <<>>
Draw == phase = 0 /\ phase' = 1 /\ x' = Case(Cfgs[R(DOMAIN Cfgs)])
Emit == phase = 1 /\ phase' = 2 /\ PrintT("CASE " \o ToJson(x)) /\ UNCHANGED x
Next == Draw \/ Emit
Spec == Init /\ [][Next]_<<phase, x>>
=============================================================================
