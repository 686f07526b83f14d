------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size: sequences of limbs in base 4096, least     *)
(* significant first, without leading zeros (so that equality is equality  *)
(* of sequences).  Products of limbs and sums of up to 120 of them stay    *)
(* within TLC's 32-bit integers.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Base == 4096
Nil == <<>>                        \* zero

RECURSIVE Strip(_)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfInt(n \div Base)

\* carry propagation over columns that may exceed the base
RECURSIVE Carry_(_, _, _, _)
Carry_(a, i, c, acc) ==
  IF i > Len(a) THEN acc \o OfInt(c)
  ELSE LET x == a[i] + c IN Carry_(a, i + 1, x \div Base, Append(acc, x % Base))
Norm_(a) == Strip(Carry_(a, 1, 0, <<>>))

At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Mx(x, y) == IF x > y THEN x ELSE y
Mn(x, y) == IF x < y THEN x ELSE y

Add(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE Norm_([i \in 1..Mx(Len(a), Len(b)) |-> At(a, i) + At(b, i)])

RECURSIVE Col(_, _, _, _, _)
Col(a, b, k, i, acc) ==            \* sum of a[i]*b[k+1-i] for i up to the last
  IF i > Len(a) \/ i > k THEN acc ELSE Col(a, b, k, i + 1, acc + a[i] * b[k + 1 - i])
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN OfInt(a[1] * b[1])
  ELSE LET x == IF Len(a) <= Len(b) THEN a ELSE b  y == IF Len(a) <= Len(b) THEN b ELSE a IN
       Norm_(TLCEval([k \in 1..(Len(a) + Len(b) - 1) |-> Col(x, y, k, Mx(1, k + 1 - Len(y)), 0)]))

RECURSIVE Lt_(_, _, _)
Lt_(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Lt_(a, b, i - 1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE Lt_(a, b, Len(a))
Le(a, b) == ~Lt(b, a)

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN <<1>> ELSE Mul(Head(s), Prod(Tail(s)))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN <<>> ELSE Add(Head(s), SumSeq(Tail(s)))

(***************************************************************************)
(* a = b (mod p), by a certificate c = [s, k]: the quotient of the         *)
(* difference and which side is larger.  The certificate is only believed  *)
(* because the equation is checked.                                        *)
(***************************************************************************)
Cong(a, b, p, c) == IF c.s = 0 THEN a = Add(b, Mul(c.k, p)) ELSE b = Add(a, Mul(c.k, p))

\* b (as an integer) from a residue: multiples of 2^12 shifts, for thresholds
Shl48(a) == IF a = <<>> THEN a ELSE <<0, 0, 0, 0>> \o a
=============================================================================
