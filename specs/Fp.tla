--------------------------------- MODULE Fp ---------------------------------
(***************************************************************************)
(* IEEE-754 doubles: + - * / and square root round to nearest, ties to     *)
(* even, with gradual underflow; infinities; NaN (whose bits are left      *)
(* open: FNaN).  ANYF is an unknown value, which the trace specification   *)
(* accepts as any pattern.  Bit patterns are 8-limb cells (needs NL = LB   *)
(* = 8).  RoundMC checks the rounding exhaustively on tiny formats.        *)
(***************************************************************************)
EXTENDS Big

ANYF == <<-9, 0, 0, 0, 0, 0, 0, 0>>
FZero(s) == <<0, 0, 0, 0, 0, 0, 0, 128 * s>>

\* decoded: [ok, s (0/1), m, e]: the cell m is zero or odd and below 2^53
RECURSIVE TzN(_), TzC(_, _), LenN(_), LenC(_, _)
TzN(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TzN(n \div 2)
TzC(c, i) == IF c[i] = 0 THEN 8 + TzC(c, i + 1) ELSE TzN(c[i])
LenN(n) == IF n = 0 THEN 0 ELSE 1 + LenN(n \div 2)
LenC(c, i) == IF i = 0 THEN 0 ELSE IF c[i] = 0 THEN LenC(c, i - 1) ELSE 8 * (i - 1) + LenN(c[i])
Tz(c) == IF c = Zero THEN 0 ELSE TzC(c, 1)
AllZ6(b) == b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 0 /\ b[5] = 0 /\ b[6] = 0
Bits(c) == LenC(c, 8)
FNaN == <<-31, 0, 0, 0, 0, 0, 0, 0>>
FInf(s) == <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
FPi == <<24, 45, 68, 84, 251, 33, 9, 64>>
FBad == [ok |-> FALSE, s |-> 0, m |-> Zero, e |-> 0]
FExp(b) == (b[8] % 128) * 16 + b[7] \div 16
FIsNaN(b) == b[1] = -31 \/ (b[1] >= 0 /\ FExp(b) = 2047 /\ ~(b[7] % 16 = 0 /\ AllZ6(b)))
FIsInf(b) == b[1] >= 0 /\ FExp(b) = 2047 /\ b[7] % 16 = 0 /\ AllZ6(b)
FDec(b) ==
  IF b[1] < 0 THEN FBad
  ELSE LET s == b[8] \div 128
           ex == FExp(b)
           c == <<b[1], b[2], b[3], b[4], b[5], b[6], (b[7] % 16) + (IF ex = 0 THEN 0 ELSE 16), 0>>
           k == Tz(c)
       IN IF ex = 2047 THEN FBad
          ELSE IF c = Zero THEN [ok |-> TRUE, s |-> s, m |-> Zero, e |-> 0]
          ELSE [ok |-> TRUE, s |-> s, m |-> Shr(c, k), e |-> (IF ex = 0 THEN -1074 ELSE ex - 1075) + k]

\* ----- rounding -----
\* the number n * 2^e, n # 0 (with sticky: a little more), rounded to p bits
\* and to multiples of 2^emin: <<m, q>>, meaning m * 2^q.  n must have more
\* than p + 1 bits if it is sticky.
Rnd(n, e, sticky, p, emin) ==
  LET nb == Bits(n)
      q == LET z == e + nb - p IN IF z < emin THEN emin ELSE z
      k == q - e
      m == IF k >= 64 THEN Zero ELSE Shr(n, k)
      half == k <= 64 /\ Bit(n, k - 1) = 1
      below == sticky \/ (IF k - 1 > Tz(n) THEN TRUE ELSE FALSE)
      up == half /\ (below \/ m[1] % 2 = 1)
  IN IF k <= 0 THEN <<n, e>> ELSE <<IF up THEN Add(m, One) ELSE m, q>>
\* the double with sign s and magnitude m * 2^e, which must be exact
FPack(s, m, e) ==
  IF m = Zero THEN FZero(s)
  ELSE LET n == Bits(m)
           ex == e + n + 1022
           k == IF ex < 1 THEN e + 1074 ELSE 53 - n
           x == IF k < 0 THEN Shr(m, -k) ELSE Shl(m, k)
           xe == IF ex < 1 THEN 0 ELSE ex
       IN IF ex > 2046 THEN FInf(s)
          ELSE <<x[1], x[2], x[3], x[4], x[5], x[6], (xe % 16) * 16 + (x[7] % 16), s * 128 + xe \div 16>>
FRnd(s, n, e, sticky) ==
  IF n = Zero THEN FZero(s)
  ELSE LET r == Rnd(n, e, sticky, 53, -1074) IN FPack(s, r[1], r[2])
FEncC(s, m, e) == FRnd(s, m, e, FALSE)
FEnc(s, n, e) == FEncC(s, FromInt(n), e)
\* a TLC integer
FInt(n) == IF n < 0 THEN FEnc(1, -n, 0) ELSE FEnc(0, n, 0)

Min2(a, b) == IF a < b THEN a ELSE b
FNeg(b) == IF FIsNaN(b) THEN FNaN ELSE IF b[1] < 0 THEN ANYF ELSE [b EXCEPT ![8] = (b[8] + 128) % 256]
FAbs(b) == IF FIsNaN(b) THEN FNaN ELSE IF b[1] < 0 THEN ANYF ELSE [b EXCEPT ![8] = b[8] % 128]
FUnk(b) == b[1] < 0 /\ b[1] # -31
FSgn(b) == b[8] \div 128
FIsZero(b) == b = FZero(0) \/ b = FZero(1)

\* the magnitude of x, with the higher top bit, at 60 bits; y aligned to it
FAddFin(x, y) ==
  LET tx == Bits(x.m) + x.e
      ty == Bits(y.m) + y.e
      hi == IF tx >= ty THEN x ELSE y
      lo == IF tx >= ty THEN y ELSE x
      k == 60 - Bits(hi.m)
      h == Shl(hi.m, k)
      e == hi.e - k
      sh == e - lo.e
      l == IF sh <= 0 THEN Shl(lo.m, -sh) ELSE IF sh > 63 THEN Zero ELSE Shr(lo.m, sh)
      st == sh > 0                   \* lo.m is odd
  IN IF x.s = y.s THEN FRnd(x.s, Add(h, l), e, st)
     ELSE IF st THEN FRnd(hi.s, Sub(Sub(h, l), One), e, TRUE)
     ELSE IF h = l THEN FZero(0)
     ELSE IF ULt(l, h) THEN FRnd(hi.s, Sub(h, l), e, FALSE) ELSE FRnd(lo.s, Sub(l, h), e, FALSE)
FAdd(a, b) ==
  LET x == FDec(a)  y == FDec(b)
  IN IF FUnk(a) \/ FUnk(b) THEN ANYF
     ELSE IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
     ELSE IF FIsInf(a) THEN (IF FIsInf(b) /\ FSgn(a) # FSgn(b) THEN FNaN ELSE a)
     ELSE IF FIsInf(b) THEN b
     ELSE IF x.m = Zero /\ y.m = Zero THEN FZero(IF x.s = 1 /\ y.s = 1 THEN 1 ELSE 0)
     ELSE IF x.m = Zero THEN b
     ELSE IF y.m = Zero THEN a
     ELSE FAddFin(x, y)
FSub(a, b) == FAdd(a, FNeg(b))

\* the product as up to 16 limbs; all but the top eight go into the sticky bit
RECURSIVE PColR(_, _, _, _, _)
PColR(a, b, k, i, s) == IF i > k \/ i > 8 THEN s
                        ELSE PColR(a, b, k, i + 1, IF k + 1 - i > 8 THEN s ELSE s + a[i] * b[k + 1 - i])
RECURSIVE PMulR(_, _, _, _, _)
PMulR(a, b, k, c, acc) ==
  IF k > 16 THEN acc
  ELSE LET s == PColR(a, b, k, 1, c) IN PMulR(a, b, k + 1, s \div 256, Append(acc, s % 256))
FMulFin(x, y, s) ==
  LET p == PMulR(x.m, y.m, 1, 0, <<>>)
      top == CHOOSE i \in 1..16 : p[i] # 0 /\ \A j \in (i + 1)..16 : p[j] = 0
      d == IF top <= 8 THEN 0 ELSE top - 8
  IN FRnd(s, SubSeq(p, d + 1, d + 8), x.e + y.e + 8 * d, \E i \in 1..d : p[i] # 0)
FMul(a, b) ==
  LET x == FDec(a)  y == FDec(b)
      s == (FSgn(a) + FSgn(b)) % 2
  IN IF FUnk(a) \/ FUnk(b) THEN ANYF
     ELSE IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
     ELSE IF FIsInf(a) \/ FIsInf(b) THEN (IF FIsZero(a) \/ FIsZero(b) THEN FNaN ELSE FInf(s))
     ELSE IF x.m = Zero \/ y.m = Zero THEN FZero(s)
     ELSE FMulFin(x, y, s)

\* k + 1 bits of the quotient r / y, for y / 2 < r < 2 * y: <<quotient, remainder>>
RECURSIVE FDivR(_, _, _, _)
FDivR(r, y, k, q) ==
  LET ge == ULe(y, r)
      r1 == IF ge THEN Sub(r, y) ELSE r
      q1 == IF ge THEN Add(Add(q, q), One) ELSE Add(q, q)
  IN IF k = 0 THEN <<q1, r1>> ELSE FDivR(Add(r1, r1), y, k - 1, q1)
FDivFin(x, y, s) ==
  LET bx == Bits(x.m)  by == Bits(y.m)
      d == FDivR(Shl(x.m, 53 - bx), Shl(y.m, 53 - by), 57, Zero)
  IN FRnd(s, d[1], (x.e - (53 - bx)) - (y.e - (53 - by)) - 57, d[2] # Zero)
FDiv(a, b) ==
  LET x == FDec(a)  y == FDec(b)
      s == (FSgn(a) + FSgn(b)) % 2
  IN IF FUnk(a) \/ FUnk(b) THEN ANYF
     ELSE IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
     ELSE IF FIsInf(a) THEN (IF FIsInf(b) THEN FNaN ELSE FInf(s))
     ELSE IF FIsInf(b) THEN FZero(s)
     ELSE IF y.m = Zero THEN (IF x.m = Zero THEN FNaN ELSE FInf(s))
     ELSE IF x.m = Zero THEN FZero(s)
     ELSE IF y.m = One THEN FRnd(s, x.m, x.e - y.e, FALSE)
     ELSE FDivFin(x, y, s)

\* square root, two bits at a time: n = m * 2^(sh), of 2 * 57 bits
RECURSIVE FSqrtR(_, _, _, _, _)
FSqrtR(m, sh, k, root, rem) ==
  LET bt(i) == IF i < sh \/ i - sh > 63 THEN 0 ELSE Bit(m, i - sh)
      r4 == Add(Shl(rem, 2), FromInt(2 * bt(2 * k + 1) + bt(2 * k)))
      t == Add(Shl(root, 2), One)
      ge == ULe(t, r4)
      rt == IF ge THEN Add(Add(root, root), One) ELSE Add(root, root)
      rm == IF ge THEN Sub(r4, t) ELSE r4
  IN IF k = 0 THEN <<rt, rm>> ELSE FSqrtR(m, sh, k - 1, rt, rm)
FSqrt(a) ==
  LET x == FDec(a)
      sh == LET z == 114 - Bits(x.m) IN IF (x.e - z) % 2 = 0 THEN z ELSE z - 1
      r == FSqrtR(x.m, sh, 56, Zero, Zero)
  IN IF FUnk(a) THEN ANYF
     ELSE IF FIsNaN(a) THEN FNaN
     ELSE IF FIsZero(a) THEN a
     ELSE IF FSgn(a) = 1 THEN FNaN
     ELSE IF FIsInf(a) THEN a
     ELSE FRnd(0, r[1], (x.e - sh) \div 2, r[2] # Zero)

\* -1, 0, 1, 5 if not ordered, or 9 if unknown
FCmp(a, b) ==
  LET x == FDec(a)  y == FDec(b)
      inf(c) == IF FSgn(c) = 1 THEN -1 ELSE 1
  IN IF FIsNaN(a) \/ FIsNaN(b) THEN 5
     ELSE IF FUnk(a) \/ FUnk(b) THEN 9
     ELSE IF FIsInf(a) THEN (IF a = b THEN 0 ELSE inf(a))
     ELSE IF FIsInf(b) THEN -inf(b)
     ELSE LET sx == IF x.m = Zero THEN 0 ELSE IF x.s = 1 THEN -1 ELSE 1
              sy == IF y.m = Zero THEN 0 ELSE IF y.s = 1 THEN -1 ELSE 1
              bx == Bits(x.m) + x.e
              by == Bits(y.m) + y.e
              \* both scaled to 53 bits
              u == Shl(x.m, 53 - Bits(x.m))
              w == Shl(y.m, 53 - Bits(y.m))
          IN IF sx # sy THEN (IF sx < sy THEN -1 ELSE 1)
             ELSE IF sx = 0 THEN 0
             ELSE IF bx # by THEN (IF bx < by THEN -sx ELSE sx)
             ELSE IF u = w THEN 0 ELSE IF ULt(u, w) THEN -sx ELSE sx

\* rounding to integers: mode "floor", "ceil", "round" (ties away from zero), "trunc"
FRoundTo(b, mode) ==
  LET x == FDec(b)
  IN IF FUnk(b) THEN ANYF
     ELSE IF FIsNaN(b) THEN FNaN
     ELSE IF FIsInf(b) \/ x.m = Zero \/ x.e >= 0 THEN b
     ELSE LET q == IF x.e < -60 THEN Zero ELSE Shr(x.m, -x.e)     \* and a fraction # 0, because m is odd
              half == x.e >= -60 /\ Bit(x.m, -x.e - 1) = 1
              up == CASE mode = "trunc" -> FALSE
                      [] mode = "floor" -> x.s = 1
                      [] mode = "ceil"  -> x.s = 0
                      [] mode = "round" -> half
          IN FEncC(x.s, IF up THEN Add(q, One) ELSE q, 0)
\* conversion to a cell, truncating, the nearest cell for others; <<>> if unknown
FToCell(b) ==
  LET x == FDec(b)
      c == IF x.e >= 0 THEN Shl(x.m, x.e) ELSE IF x.e < -60 THEN Zero ELSE Shr(x.m, -x.e)
  IN IF FIsNaN(b) THEN Zero
     ELSE IF FUnk(b) THEN <<>>
     ELSE IF FIsInf(b) \/ (x.m # Zero /\ Bits(x.m) + x.e > 63) THEN (IF FSgn(b) = 1 THEN MinC ELSE MaxC)
     ELSE IF x.s = 1 THEN Neg(c) ELSE c
\* the double nearest to a cell
FOfCell(c) == IF IsNeg(c) THEN FEncC(1, Neg(c), 0) ELSE FEncC(0, c, 0)

\* value of a parsed literal: (int + frac / 10^k) * 10^exp, if that is exact
RECURSIVE Pow(_, _), DecC(_, _, _), Pow5C(_)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
TenC == FromInt(10)
DecC(s, i, c) == IF i > Len(s) THEN c ELSE DecC(s, i + 1, Add(Mul(c, TenC), FromInt(s[i] - 48)))
Pow5C(n) == IF n = 0 THEN One ELSE Mul(FromInt(5), Pow5C(n - 1))
FOfLiteral(f) ==         \* symbolic or ANYF if it is not exact
  LET ex == IF Len(f.exp) > 8 THEN 99 ELSE DecVal(f.exp)
      k == Len(f.frac)
      sg == IF f.neg THEN 1 ELSE 0
      i == DecC(f.int, 1, Zero)
      r == DecC(f.frac, 1, Zero)
      rd == UDiv(r, Pow5C(k))             \* the fraction is rd[1] * 2^-k if it is exact
      n == Add(Shl(i, k), rd[1])
      \* a symbolic cell (see Real): sign, powers of ten above and below, digits
      sym == <<-30, 9, sg, IF f.eneg THEN 0 ELSE ex, IF f.eneg THEN k + ex ELSE k>> \o BgDec(f.int \o f.frac)
  IN IF Len(f.int) > 15 \/ k > 15 \/ ex > 22 THEN ANYF
     ELSE IF i = Zero /\ r = Zero THEN FZero(sg)
     ELSE IF rd[2] # Zero \/ Bits(i) + k > 53 THEN sym
     ELSE LET m == Shr(n, Tz(n))
              e == Tz(n) - k
              d == UDiv(m, Pow5C(ex))
          IN IF f.eneg THEN (IF d[2] # Zero THEN sym ELSE FEncC(sg, d[1], e - ex))
             ELSE IF ex > 0 /\ Bits(m) + Bits(Pow5C(ex)) > 54 THEN sym
             ELSE FEncC(sg, Mul(m, Pow5C(ex)), e + ex)

\* "{:.k}" of a double; <<>> if unknown.  Round half to even on exact ties.
FFixed(b, k) ==
  LET x == FDec(b)
      sg == IF FSgn(b) = 1 THEN <<45>> ELSE <<>>
  IN IF FIsNaN(b) THEN <<78, 97, 78>>
     ELSE IF FUnk(b) \/ k > 20 THEN <<>>
     ELSE IF FIsInf(b) THEN sg \o <<105, 110, 102>>
     ELSE LET tiny == Bits(x.m) + x.e < -4 * k - 4
              n == BgMul(BgCell(x.m), BgPow(10, k))
              q0 == IF tiny THEN <<>> ELSE BgScale(n, x.e)
              rm == IF tiny \/ x.e >= 0 THEN <<>> ELSE BgTrim(BgSub(n, BgShl(q0, -x.e)))
              hf == IF tiny \/ x.e >= 0 THEN <<1>> ELSE BgPow2(-x.e - 1)
              up == BgLt(hf, rm) \/ (BgTrim(hf) = rm /\ BgL(q0, 1) % 2 = 1)
              d == BgDigits(IF up THEN BgAdd(q0, <<1>>) ELSE q0)
              z == Rep(48, IF Len(d) <= k THEN k + 1 - Len(d) ELSE 0) \o d
              w == SubSeq(z, 1, Len(z) - k)
              t == SubSeq(z, Len(z) - k + 1, Len(z))
          IN sg \o w \o (IF k > 0 THEN <<46>> \o t ELSE <<>>)
=============================================================================
