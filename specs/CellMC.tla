------------------------------- MODULE CellMC -------------------------------
(***************************************************************************)
(* Every operator of Cell and Loop against plain integer arithmetic, for   *)
(* all operands at a tiny cell width; the operators work limb by limb, so  *)
(* the width is only a parameter.                                          *)
(***************************************************************************)
EXTENDS Loop, TLC
VARIABLES PA, PB, PC
TinyDiv == 2
M == 2^CellBits
H == M \div 2
Sg(n) == IF n >= H THEN n - M ELSE n          \* signed value of n in 0..M-1
C(n) == FromInt(n)
Uv(c) == ValR(c, 1, NL)
TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN IF (a < 0) # (b < 0) THEN -q ELSE q
TMod(a, b) == a - b * TDiv(a, b)
RECURSIVE BitsAnd(_, _, _)
BitsAnd(a, b, k) == IF k = 0 THEN 0
  ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BitsAnd(a \div 2, b \div 2, k - 1)
Init == PA \in 0..(M - 1) /\ PB \in 0..(M - 1) /\ PC \in 0..(M - 1)
Next == FALSE /\ UNCHANGED <<PA, PB, PC>>
Once == PC = 0      \* two-operand laws need not be repeated for every PC
Codes == Once => /\ Uv(C(PA)) = PA /\ C(Sg(PA)) = C(PA) /\ ToInt(C(PA)) = Sg(PA)
                 /\ IsNeg(C(PA)) = (Sg(PA) < 0) /\ (C(PA) = Zero) = (PA = 0)
                 /\ Uv(MinC) = H /\ Uv(MaxC) = H - 1 /\ Uv(Ones) = M - 1
Arith == Once => /\ Uv(Add(C(PA), C(PB))) = (PA + PB) % M
                 /\ Uv(Sub(C(PA), C(PB))) = (PA - PB) % M
                 /\ Uv(Mul(C(PA), C(PB))) = (PA * PB) % M
                 /\ Uv(Neg(C(PA))) = (-PA) % M
                 /\ Uv(Abs(C(PA))) = (IF Sg(PA) < 0 THEN -Sg(PA) ELSE PA)
                 /\ AddOverflows(C(PA), C(PB)) = (Sg(PA) + Sg(PB) \notin (-H)..(H - 1))
Order == Once => /\ SLt(C(PA), C(PB)) = (Sg(PA) < Sg(PB))
                 /\ SLe(C(PA), C(PB)) = (Sg(PA) <= Sg(PB))
                 /\ ULt(C(PA), C(PB)) = (PA < PB)
Logic == Once => /\ Uv(BAnd(C(PA), C(PB))) = BitsAnd(PA, PB, CellBits)
                 /\ Uv(BOr(C(PA), C(PB))) = PA + PB - BitsAnd(PA, PB, CellBits)
                 /\ Uv(BXor(C(PA), C(PB))) = PA + PB - 2 * BitsAnd(PA, PB, CellBits)
                 /\ Uv(BNot(C(PA))) = M - 1 - PA
Shifts == (Once /\ PB < CellBits) => /\ Uv(Shl(C(PA), PB)) = (PA * 2^PB) % M
                                     /\ Uv(Shr(C(PA), PB)) = PA \div 2^PB
Division == (Once /\ PB # 0) =>
  LET q == SDiv(C(PA), C(PB))
  IN /\ Uv(q[1]) = TDiv(Sg(PA), Sg(PB)) % M
     /\ Uv(q[2]) = TMod(Sg(PA), Sg(PB)) % M
\* a loop with limit PA, start PB and step PC leaves exactly if the step crosses
\* the boundary between limit - 1 and limit, on the circle of M values
Steps(n, k) == {(n + j) % M : j \in 1..k}       \* values reached from n going up k
Crosses(limit, n, step) ==
  IF step >= 0 THEN (limit % M) \in Steps(n, step)
  ELSE (limit % M) \in Steps((n + step) % M, -step)
Loops ==
  LET e == LoopEnter(C(PA), C(PB))
  IN /\ LoopIndex(e[1], e[2]) = C(PB)
     /\ LoopLeaves(e[2], C(PC)) = Crosses(PA, PB, Sg(PC))
     /\ LoopIndex(e[1], LoopNext(e[2], C(PC))) = C((PB + PC) % M)
=============================================================================
