-------------------------------- MODULE Cell --------------------------------
(***************************************************************************)
(* Machine cells.  A cell is a little-endian tuple of NL limbs of LB bits, *)
(* i.e. a two's-complement number of NL*LB bits.  Trace validation uses    *)
(* NL = 8, LB = 8 (64-bit cells, one limb per byte, because TLC integers   *)
(* have only 32 bits); the exhaustive models use tiny cells, and CellMC    *)
(* checks every operator below against plain integer arithmetic there.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

CONSTANTS NL, LB

\* the same function as an explicit table (TLC keeps [x \in S |-> e] unevaluated)
Force(f) == f @@ <<>>

LimbBase == 2^LB
CellBits == NL * LB

Limb(a, i) == IF i \in 1..NL THEN a[i] ELSE 0

RECURSIVE RepR(_, _, _)
RepR(x, n, acc) == IF n = 0 THEN acc ELSE RepR(x, n - 1, Append(acc, x))
Rep(x, n) == RepR(x, n, <<>>)

Zero  == Rep(0, NL)
Ones  == Rep(LimbBase - 1, NL)
MinC  == Append(Rep(0, NL - 1), LimbBase \div 2)
MaxC  == Append(Rep(LimbBase - 1, NL - 1), LimbBase \div 2 - 1)

RECURSIVE FromIntR(_, _, _)
FromIntR(n, i, acc) ==
  IF i > NL THEN acc
  ELSE FromIntR(n \div LimbBase, i + 1, Append(acc, n % LimbBase))
\* two's complement: \div and % of TLA+ round towards minus infinity
FromInt(n) == FromIntR(n, 1, <<>>)

One == FromInt(1)
Flag(b) == IF b THEN Ones ELSE Zero

IsNeg(a) == a[NL] >= LimbBase \div 2

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, i, c, acc) ==
  IF i > NL THEN acc
  ELSE LET s == a[i] + b[i] + c
       IN AddR(a, b, i + 1, s \div LimbBase, Append(acc, s % LimbBase))
Add(a, b) == AddR(a, b, 1, 0, <<>>)

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, i, c, acc) ==
  IF i > NL THEN acc
  ELSE LET s == a[i] - b[i] - c
       IN SubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % LimbBase))
Sub(a, b) == SubR(a, b, 1, 0, <<>>)
Neg(a) == Sub(Zero, a)
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a

RECURSIVE ULtR(_, _, _)
ULtR(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtR(a, b, i - 1)
ULt(a, b) == ULtR(a, b, NL)
ULe(a, b) == ~ULt(b, a)
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE ULt(a, b)
SLe(a, b) == ~SLt(b, a)

\* Does a + b leave the signed range?
AddOverflows(a, b) == IsNeg(a) = IsNeg(b) /\ IsNeg(Add(a, b)) # IsNeg(a)

\* ----- multiplication: column sums, then carry propagation -----
RECURSIVE ColR(_, _, _, _, _)
ColR(a, b, k, i, s) == IF i > k THEN s ELSE ColR(a, b, k, i + 1, s + a[i] * b[k + 1 - i])
RECURSIVE MulR(_, _, _, _, _)
MulR(a, b, k, c, acc) ==
  IF k > NL THEN acc
  ELSE LET s == ColR(a, b, k, 1, c)
       IN MulR(a, b, k + 1, s \div LimbBase, Append(acc, s % LimbBase))
Mul(a, b) == MulR(a, b, 1, 0, <<>>)

\* ----- conversion to TLC integers, when the value is small -----
RECURSIVE ValR(_, _, _)
ValR(a, i, hi) == IF i > hi THEN 0 ELSE a[i] + LimbBase * ValR(a, i + 1, hi)
RECURSIVE AllFrom(_, _, _)
AllFrom(a, i, x) == i > NL \/ (a[i] = x /\ AllFrom(a, i + 1, x))
\* number of limbs that certainly fit a TLC integer
SafeLimbs == IF CellBits <= 24 THEN NL ELSE 24 \div LB
\* 0 <= value < 2^24 (as unsigned)
SmallNat(a) == AllFrom(a, SafeLimbs + 1, 0)
ToNat(a) == ValR(a, 1, SafeLimbs)
SmallInt(a) == IF IsNeg(a) THEN SmallNat(Neg(a)) ELSE SmallNat(a)
ToInt(a) == IF IsNeg(a) THEN -ToNat(Neg(a)) ELSE ToNat(a)

\* ----- bitwise -----
RECURSIVE BAndR(_, _, _, _)
BAndR(a, b, i, acc) == IF i > NL THEN acc ELSE BAndR(a, b, i + 1, Append(acc, a[i] & b[i]))
BAnd(a, b) == BAndR(a, b, 1, <<>>)
RECURSIVE BNotR(_, _, _)
BNotR(a, i, acc) == IF i > NL THEN acc ELSE BNotR(a, i + 1, Append(acc, LimbBase - 1 - a[i]))
BNot(a) == BNotR(a, 1, <<>>)
BOr(a, b) == BNot(BAnd(BNot(a), BNot(b)))
BXor(a, b) == BAnd(BOr(a, b), BNot(BAnd(a, b)))

RECURSIVE ShlR(_, _, _, _, _)
ShlR(a, q, r, i, acc) ==
  IF i > NL THEN acc
  ELSE ShlR(a, q, r, i + 1,
         Append(acc, ((Limb(a, i - q) * 2^r) % LimbBase)
                     + ((Limb(a, i - q - 1) * 2^r) \div LimbBase)))
Shl(a, k) == ShlR(a, k \div LB, k % LB, 1, <<>>)
RECURSIVE ShrR(_, _, _, _, _)
ShrR(a, q, r, i, acc) ==
  IF i > NL THEN acc
  ELSE ShrR(a, q, r, i + 1,
         Append(acc, (Limb(a, i + q) \div 2^r)
                     + ((Limb(a, i + q + 1) * 2^(LB - r)) % LimbBase)))
Shr(a, k) == ShrR(a, k \div LB, k % LB, 1, <<>>)
\* The shift count is taken modulo the cell width (an ambiguous condition in
\* Forth; this is what the implementation does for every count).
ShiftCount(c) == ValR(c, 1, SafeLimbs) % CellBits

Bit(a, k) == (a[k \div LB + 1] \div 2^(k % LB)) % 2

\* by a small natural number; <<quotient, remainder as an integer>>
RECURSIVE DivSmallR(_, _, _, _, _)
DivSmallR(c, m, i, r, acc) ==      \* from the top limb down; <<quotient, remainder>>
  IF i = 0 THEN <<acc, r>>
  ELSE LET s == r * LimbBase + c[i]
       IN DivSmallR(c, m, i - 1, s % m, <<s \div m>> \o acc)
DivSmall(c, m) == DivSmallR(c, m, NL, 0, <<>>)
\* ----- division (truncating), by restoring bit division of magnitudes -----
RECURSIVE UDivR(_, _, _, _, _)
UDivR(a, b, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET top == IsNeg(r)
           r1  == Add(Add(r, r), FromInt(Bit(a, k)))
           ge  == top \/ ULe(b, r1)
           r2  == IF ge THEN Sub(r1, b) ELSE r1
           q1  == Add(Add(q, q), IF ge THEN One ELSE Zero)
       IN UDivR(a, b, k - 1, q1, r2)
\* divisors below this are divided limb by limb
DivLimit == 65536
RECURSIVE BitLen(_, _)
BitLen(a, k) == IF k = 0 THEN 0 ELSE IF Bit(a, k - 1) = 1 THEN k ELSE BitLen(a, k - 1)
UDiv(a, b) ==
  IF SmallNat(b) /\ ToNat(b) < DivLimit
  THEN LET d == DivSmall(a, ToNat(b)) IN <<d[1], FromInt(d[2])>>
  ELSE LET n == BitLen(a, CellBits) - BitLen(b, CellBits) + 1     \* bits of the quotient
       IN IF n <= 0 THEN <<Zero, a>> ELSE UDivR(a, b, n - 1, Zero, Shr(a, n))
\* <<quotient, remainder>>, truncated towards zero, remainder has the sign of
\* the dividend; MinC / -1 wraps to MinC, remainder zero.
SDiv(a, b) ==
  LET u == UDiv(Abs(a), Abs(b))
  IN <<IF IsNeg(a) # IsNeg(b) THEN Neg(u[1]) ELSE u[1],
       IF IsNeg(a) THEN Neg(u[2]) ELSE u[2]>>
=============================================================================
