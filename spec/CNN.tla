-------------------------------- MODULE CNN ---------------------------------
(***************************************************************************)
(* The layers of the encrypted neural network (C19), as functions on       *)
(* plaintext slots, and the judgement of recorded evaluations.             *)
(*                                                                         *)
(* A case is a network layer (or the whole network), its operands and      *)
(* their owners; a record adds what the real code returned for it, slot by *)
(* slot.  CNNGen draws the cases.                                          *)
(*                                                                         *)
(* Design: the same layers are also composed, operation by operation, from *)
(* the transitions of MKHE.tla, and TLC checks that the composition        *)
(* computes the functions below (CNNDesign).                               *)
(***************************************************************************)
EXTENDS MKHE, Json, IOUtils

(****************************** the functions ******************************)
Fold(c, v, k) == VAdd(c, v, VRot(c, v, k))
RECURSIVE Folds(_, _, _)
Folds(c, v, ks) == IF ks = <<>> THEN v ELSE Folds(c, Fold(c, v, Head(ks)), Tail(ks))
Pow(k, n) == [j \in 1..n |-> k * 2^(j - 1)]        \* k, 2k, 4k, ..

\* sum over i of (v rotated by offs[i]) * ms[i]
RECURSIVE Inner(_, _, _, _, _)
Inner(c, v, ms, offs, i) ==
  LET t == VMul(c, VRot(c, v, offs[i]), ms[i]) IN
  IF i = Len(offs) THEN t ELSE VAdd(c, t, Inner(c, v, ms, offs, i + 1))

Conv(c, img, ks)     == Folds(c, Inner(c, img, ks, <<0, 1, 14, 15>>, 1), <<2048, 1024>>)
FC1(c, v, ms, bias)  == VAdd(c, Folds(c, Inner(c, v, ms, [i \in DOMAIN ms |-> (i - 1) * 128], 1), Pow(1, 7)), bias)
FC2(c, v, m, bias, mask) ==
  VAdd(c, Folds(c, VMul(c, Folds(c, VMul(c, v, mask), Pow(-1, 4)), m), Pow(128, 6)), bias)

\* the whole network, with its two squarings
Net(c, x) ==
  LET a == Conv(c, x.v, x.ks)
      b == FC1(c, VMul(c, a, a), x.ms, x.b1)
  IN FC2(c, VMul(c, b, b), x.m2, x.b2, x.mask)

Result(c, x) == CASE x.layer = "conv" -> Conv(c, x.v, x.ks)
                  [] x.layer = "fc1" -> FC1(c, x.v, x.ms, x.b1)
                  [] x.layer = "fc2" -> FC2(c, x.v, x.m2, x.b2, x.mask)
                  [] x.layer = "net" -> Net(c, x)
\* the owners whose data the result depends on
Parties(x) == CASE x.layer = "conv" -> {x.pv} \cup Range(x.pks)
                [] x.layer = "fc1" -> {x.pv} \cup Range(x.pms) \cup {x.pb1}
                [] x.layer = "fc2" -> {x.pv, x.pm2, x.pb2}
                [] x.layer = "net" -> {x.pv} \cup Range(x.pks) \cup Range(x.pms) \cup {x.pb1, x.pm2, x.pb2}
=============================================================================
