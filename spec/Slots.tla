-------------------------------- MODULE Slots --------------------------------
(***************************************************************************)
(* The algebra of plaintext slots, for both schemes.                       *)
(*                                                                         *)
(* c is a configuration record (see MKHE.tla).  A message is a sequence:   *)
(*   bfv : c.rows*c.n integers modulo c.t, row after row                   *)
(*         (c.t = 0 : the modulus is too large for TLC's integers, values  *)
(*          are kept as integers and must stay small)                      *)
(*   ckks: c.n Gaussian integers <<re, im>>                                *)
(* When c.rep = "per" or "blk" the real message has c.slots > c.n slots in *)
(* every row and is periodic, or constant on blocks, respectively.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

RECURSIVE Bits(_)
Bits(x) == IF x <= 0 THEN 0 ELSE 1 + Bits(x \div 2)

\* a*b mod t without leaving 32-bit integers, for t < 2^19
MulMod(a, b, t) == ((((a * (b \div 256)) % t) * 256) + a * (b % 256)) % t

Len_(c) == c.rows * c.n

SAdd(c, x, y) == IF c.scheme = "ckks" THEN <<x[1] + y[1], x[2] + y[2]>>
                 ELSE IF c.t = 0 THEN x + y ELSE (x + y) % c.t
SNeg(c, x)    == IF c.scheme = "ckks" THEN <<-x[1], -x[2]>>
                 ELSE IF c.t = 0 THEN -x ELSE (-x) % c.t
SMul(c, x, y) == IF c.scheme = "ckks" THEN <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
                 ELSE IF c.t = 0 THEN x * y ELSE MulMod(x, y, c.t)
SZero(c)      == IF c.scheme = "ckks" THEN <<0, 0>> ELSE 0

\* TLCEval: TLC would otherwise keep these as unevaluated function expressions
VAdd(c, v, w) == TLCEval([i \in 1..Len_(c) |-> SAdd(c, v[i], w[i])])
VSub(c, v, w) == TLCEval([i \in 1..Len_(c) |-> SAdd(c, v[i], SNeg(c, w[i]))])
VMul(c, v, w) == TLCEval([i \in 1..Len_(c) |-> SMul(c, v[i], w[i])])
VZero(c)      == TLCEval([i \in 1..Len_(c) |-> SZero(c)])

SMax(c, x) == IF c.scheme = "ckks" THEN Max(Abs(x[1]), Abs(x[2]))
              ELSE IF c.t = 0 THEN Abs(x) ELSE 0

VMaxAbs(c, v) ==
  LET RECURSIVE M(_, _)
      M(i, acc) == IF i > Len(v) THEN acc ELSE M(i + 1, Max(acc, SMax(c, v[i])))
  IN M(1, 0)

(***************************************************************************)
(* Left rotation by an arbitrary integer k.  The library's rotation group  *)
(* has order c.half (half the ring degree); the message repeats after      *)
(* c.slots <= c.half slots.                                                *)
(***************************************************************************)
Norm(c, k) == k % c.half                   \* TLA+ %: result in 0..half-1
BlkSize(c) == c.slots \div c.n
RotDefined(c, k) == c.rep # "blk" \/ (Norm(c, k) % c.slots) % BlkSize(c) = 0
RotShift(c, k) == LET kk == Norm(c, k) % c.slots IN
                  IF c.rep = "blk" THEN kk \div BlkSize(c) ELSE kk % c.n
VRot(c, v, k) ==
  LET sh == RotShift(c, k) IN
  TLCEval([i \in 1..Len_(c) |->
     LET r == (i - 1) \div c.n        \* row
         j == (i - 1) % c.n           \* column
     IN v[r * c.n + ((j + sh) % c.n) + 1]])

VConj(c, v) ==
  TLCEval(IF c.scheme = "ckks" THEN [i \in 1..Len_(c) |-> <<v[i][1], -v[i][2]>>]
          ELSE [i \in 1..Len_(c) |-> v[((i - 1 + c.n) % (2 * c.n)) + 1]])

\* multiplication by the constant (re + i*im)/den ; Divisible says whether the result is integral
SCMul(c, x, re, im, den) == <<(x[1] * re - x[2] * im) \div den, (x[1] * im + x[2] * re) \div den>>
SCDiv(c, x, re, im, den) == (x[1] * re - x[2] * im) % den = 0 /\ (x[1] * im + x[2] * re) % den = 0
VCMul(c, v, re, im, den) == TLCEval([i \in 1..Len_(c) |-> SCMul(c, v[i], re, im, den)])
VCDiv(c, v, re, im, den) == \A i \in 1..Len_(c) : SCDiv(c, v[i], re, im, den)
=============================================================================
