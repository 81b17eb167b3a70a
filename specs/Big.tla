-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size: little-endian sequences of 12-bit limbs    *)
(* (leading zero limbs allowed).  RealMC checks every operator against     *)
(* integer arithmetic and against the laws of arithmetic.                  *)
(***************************************************************************)
EXTENDS Text

BGB == 4096
BgL(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
RECURSIVE BgOfIntR(_, _)
BgOfIntR(n, acc) == IF n = 0 THEN acc ELSE BgOfIntR(n \div BGB, Append(acc, n % BGB))
BgInt(n) == BgOfIntR(n, <<>>)
BgZero(a) == \A i \in 1..Len(a) : a[i] = 0
RECURSIVE BgTrim(_)
BgTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BgTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BgToInt(_)
BgToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + BGB * BgToInt(Tail(a))

\* from an 8-limb cell of bytes (unsigned)
BgCell(c) == << c[1] + 256 * (c[2] % 16), c[2] \div 16 + 16 * c[3],
                c[4] + 256 * (c[5] % 16), c[5] \div 16 + 16 * c[6],
                c[7] + 256 * (c[8] % 16), c[8] \div 16 >>

BgMax(i, j) == IF i < j THEN j ELSE i
RECURSIVE BgAddR(_, _, _, _, _, _)
BgAddR(a, b, i, n, c, acc) ==
  IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == BgL(a, i) + BgL(b, i) + c
       IN BgAddR(a, b, i + 1, n, s \div BGB, Append(acc, s % BGB))
BgAdd(a, b) == BgAddR(a, b, 1, BgMax(Len(a), Len(b)), 0, <<>>)
\* a >= b
RECURSIVE BgSubR(_, _, _, _, _)
BgSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - BgL(b, i) - c
       IN BgSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % BGB))
BgSub(a, b) == BgSubR(a, b, 1, 0, <<>>)
RECURSIVE BgLtR(_, _, _)
BgLtR(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF BgL(a, i) # BgL(b, i) THEN BgL(a, i) < BgL(b, i) ELSE BgLtR(a, b, i - 1)
BgLt(a, b) == BgLtR(a, b, BgMax(Len(a), Len(b)))
BgLe(a, b) == ~BgLt(b, a)
BgDiff(a, b) == IF BgLt(a, b) THEN BgSub(b, a) ELSE BgSub(a, b)

RECURSIVE BgColR(_, _, _, _, _, _)
BgColR(a, b, k, i, hi, s) == IF i > hi THEN s ELSE BgColR(a, b, k, i + 1, hi, s + a[i] * b[k + 1 - i])
RECURSIVE BgMulR(_, _, _, _, _)
BgMulR(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) THEN acc
  ELSE LET s == BgColR(a, b, k, BgMax(1, k + 1 - Len(b)), IF k < Len(a) THEN k ELSE Len(a), c)
       IN BgMulR(a, b, k + 1, s \div BGB, Append(acc, s % BGB))
BgMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BgMulR(a, b, 1, 0, <<>>)
\* by an integer below 2^18
RECURSIVE BgMulSR(_, _, _, _, _)
BgMulSR(a, n, i, c, acc) ==
  IF i > Len(a) THEN acc \o BgInt(c)
  ELSE LET s == a[i] * n + c IN BgMulSR(a, n, i + 1, s \div BGB, Append(acc, s % BGB))
BgMulS(a, n) == BgMulSR(a, n, 1, 0, <<>>)
\* <<quotient, remainder>> by an integer below 2^18
RECURSIVE BgDivSR(_, _, _, _, _)
BgDivSR(a, n, i, r, acc) ==
  IF i = 0 THEN <<acc, r>>
  ELSE LET s == r * BGB + a[i] IN BgDivSR(a, n, i - 1, s % n, <<s \div n>> \o acc)
BgDivS(a, n) == BgDivSR(a, n, Len(a), 0, <<>>)

\* shifts by bits; the right shift drops bits
BgShl(a, k) == Rep(0, k \div 12) \o (IF k % 12 = 0 THEN a ELSE BgMulS(a, 2^(k % 12)))
BgDrop(a, j) == IF j >= Len(a) THEN <<>> ELSE SubSeq(a, j + 1, Len(a))
BgShr(a, k) == LET x == BgDrop(a, k \div 12) IN IF k % 12 = 0 THEN x ELSE BgDivS(x, 2^(k % 12))[1]
BgScale(a, k) == IF k >= 0 THEN BgShl(a, k) ELSE BgShr(a, -k)
BgPow2(k) == BgShl(<<1>>, k)
RECURSIVE BgLenN(_)
BgLenN(n) == IF n = 0 THEN 0 ELSE 1 + BgLenN(n \div 2)
BgBits(a) == LET t == BgTrim(a) IN IF t = <<>> THEN 0 ELSE 12 * (Len(t) - 1) + BgLenN(t[Len(t)])
RECURSIVE BgPow(_, _)
BgPow(b, n) == IF n = 0 THEN <<1>> ELSE BgMulS(BgPow(b, n - 1), b)

\* <<quotient, remainder>> by any divisor # 0: long division, every digit
\* estimated from the top limbs (at most 2 too high if b's top limb is large)
RECURSIVE BgFit(_, _, _)
BgFit(r, b, d) == LET p == BgMulS(b, d) IN IF BgLt(r, p) THEN BgFit(r, b, d - 1) ELSE <<d, BgTrim(BgSub(r, p))>>
RECURSIVE BgDivR(_, _, _, _, _)
BgDivR(a, b, i, q, r) ==
  IF i = 0 THEN <<q, r>>
  ELSE LET n == Len(b)
           r1 == <<a[i]>> \o r
           g == (BgL(r1, n + 1) * BGB + BgL(r1, n)) \div b[n]
           f == BgFit(r1, b, IF g >= BGB THEN BGB - 1 ELSE g)
       IN BgDivR(a, b, i - 1, <<f[1]>> \o q, f[2])
BgDiv(a, b) ==
  LET t == BgTrim(b)
      k == 12 - BgLenN(t[Len(t)])
      d == BgDivR(BgShl(a, k), BgTrim(BgShl(t, k)), Len(BgShl(a, k)), <<>>, <<>>)
  IN <<BgTrim(d[1]), BgShr(d[2], k)>>

\* decimal digits, as characters, at least one
RECURSIVE BgDigitsR(_, _)
BgDigitsR(a, acc) ==
  LET t == BgTrim(a)
      d == BgDivS(t, 1000)
      r == d[2]
  IN IF t = <<>> THEN acc
     ELSE BgDigitsR(d[1], <<48 + r \div 100, 48 + ((r \div 10) % 10), 48 + (r % 10)>> \o acc)
RECURSIVE BgNoZeros(_)
BgNoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN BgNoZeros(Tail(s)) ELSE s
BgDigits(a) == IF BgZero(a) THEN <<48>> ELSE BgNoZeros(BgDigitsR(a, <<>>))
BgDec(s) == LET RECURSIVE go(_, _)
                go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, BgMulSR(acc, 10, 1, s[i] - 48, <<>>))
            IN go(1, <<>>)
=============================================================================
