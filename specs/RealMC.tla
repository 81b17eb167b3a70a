------------------------------- MODULE RealMC -------------------------------
(***************************************************************************)
(* The judge of the transcendental words, judged.                          *)
(*  "big"   natural numbers agree with TLC's integers and obey the laws of *)
(*          arithmetic, for all pairs out of a set up to 2^200;            *)
(*  "laws"  the series obey: sin^2 + cos^2 = 1, the addition theorems, the *)
(*          periodicity, ln(ab) = ln a + ln b, pi by Machin's formula, and *)
(*          ln 2 by its series, for all pairs of angles n/DEN;             *)
(*  "words" every word accepts what the laws say its result is and refuses *)
(*          numbers 16 units away; the machine leaves just those cells.    *)
(***************************************************************************)
EXTENDS Host, Real
CONSTANTS SHAPE, NN, DEN
VARIABLES RA, RB, RBASE
\* ----- big -----
Bigs == {<<k, d>> : k \in {0, 5, 11, 12, 13, 24, 30, 60, 131, 199}, d \in {-1, 0, 1}} \cup {<<0, n>> : n \in 0..NN}
BigOf(u) == IF u[1] = 0 THEN BgInt(u[2] + 1)
            ELSE IF u[2] = -1 THEN BgSub(BgPow2(u[1]), <<1>>) ELSE BgAdd(BgPow2(u[1]), BgInt(u[2]))
Eq(a, b) == BgTrim(a) = BgTrim(b)
BigLaws ==
  SHAPE = "big" /\ RA # <<>> =>
    LET a == BigOf(RA)  b == BigOf(RB)
        s == BgAdd(a, b)  p == BgMul(a, b)
        q == BgDiv(a, b)
        i == RA[1] = 0  j == RB[1] = 0
        x == RA[2] + 1  y == RB[2] + 1
    IN /\ Eq(s, BgAdd(b, a)) /\ Eq(p, BgMul(b, a))
       /\ Eq(BgSub(s, b), a) /\ BgLe(a, s) /\ (BgLt(a, b) <=> ~BgLe(b, a))
       /\ Eq(BgMul(s, s), BgAdd(BgMul(a, a), BgAdd(BgMulS(p, 2), BgMul(b, b))))
       /\ (~BgZero(b) => BgLt(q[2], b) /\ Eq(a, BgAdd(BgMul(q[1], b), q[2])) /\ Eq(BgDiv(p, b)[1], a))
       /\ (j => Eq(BgMulS(a, y), p) /\ (y > 0 => LET d == BgDivS(a, y) IN Eq(d[1], q[1]) /\ BgToInt(BgTrim(q[2])) = d[2]))
       /\ (i /\ j => BgToInt(s) = x + y /\ BgToInt(p) = x * y /\ (BgLt(a, b) <=> x < y) /\ (y > 0 => BgToInt(q[1]) = x \div y))
       /\ (RA = RB => /\ Eq(BgShr(BgShl(a, 29), 29), a) /\ Eq(BgShl(a, 29), BgMul(a, BgPow(2, 29)))
                      /\ (RA[1] > 0 /\ RA[2] = 0 => BgBits(a) = RA[1] + 1)
                      /\ Eq(BgDec(BgDigits(a)), a)
                      /\ (i => BgDigits(a) = UNumeral(FromInt(x), 10))
                      /\ (RA[1] < 60 => Eq(BgCell(IF i THEN FromInt(x) ELSE Add(Shl(One, RA[1]), FromInt(RA[2]))), a)))
\* ----- laws -----
Ang(n) == BgTrim(BgDivS(BgMulS(XOne, n), DEN)[1])
Nearly(d) == BgLe(d.m, BgPow2(12))                     \* 2^-132
S_(n) == XSinCos(Ang(n))[1]
C_(n) == XSinCos(Ang(n))[2]
XO == XS(0, XOne)
\* arctan(1/k), from its series
RECURSIVE ArcR(_, _, _, _, _)
ArcR(t, k2, n, plus, minus) == IF BgZero(t) THEN BgSub(plus, minus)
  ELSE LET t1 == BgDivS(t, k2)[1]
       IN ArcR(BgTrim(BgDivS(t1, k2)[1]), k2, n + 4, BgAdd(plus, BgDivS(t, n)[1]), BgAdd(minus, BgDivS(t1, n + 2)[1]))
Arc(k) == ArcR(BgDivS(XOne, k)[1], k * k, 1, <<>>, <<>>)
Machin == BgSub(BgMulS(Arc(5), 16), BgMulS(Arc(239), 4))
\* ln 2 = sum 1/(n 2^n)
RECURSIVE Ln2R(_, _, _)
Ln2R(t, n, acc) == IF BgZero(t) THEN acc ELSE Ln2R(BgTrim(BgDivS(t, 2)[1]), n + 1, BgAdd(acc, BgDivS(t, n)[1]))
DecI(n) == FDec(FInt(n))
Laws ==
  SHAPE = "laws" /\ RA # <<>> =>
    LET a == RA[1]  b == RB[1]
    IN /\ Nearly(XSub(S_(a + b), XAdd(XTimes(S_(a), C_(b)), XTimes(C_(a), S_(b)))))
       /\ Nearly(XSub(C_(a + b), XSub(XTimes(C_(a), C_(b)), XTimes(S_(a), S_(b)))))
       /\ (a > 0 /\ b > 0 => Nearly(XSub(XLn(DecI(a * b)), XAdd(XLn(DecI(a)), XLn(DecI(b))))))
       /\ (a = b =>
           /\ Nearly(XSub(XAdd(XTimes(S_(a), S_(a)), XTimes(C_(a), C_(a))), XO))
           /\ LET r == XSinCos(BgAdd(Ang(a), BgMulS(XPi, 2))) IN Nearly(XSub(r[1], S_(a))) /\ Nearly(XSub(r[2], C_(a)))
           /\ (a > 0 => XLn(DecI(a)).s = 0)
           /\ (a = 0 => /\ Nearly(XSub(XS(0, Machin), XS(0, XPi)))
                        /\ Nearly(XSub(XS(0, Ln2R(BgDivS(XOne, 2)[1], 1, <<>>)), XS(0, XLn2)))
                        /\ BgLe(BgDiff(BgMulS(XPiH, 2), XPi), <<4>>)
                        /\ BgLe(BgDiff(XMul(X2Pi, XPiH), XOne), <<4>>)
                        /\ Nearly(S_(0)) /\ Nearly(XSub(C_(0), XO)) /\ Nearly(XLn(DecI(1)))))
\* ----- words -----
\* the double nearest to a signed number
ToCell(c) == LET l(i) == BgL(c, i) IN
  << l(1) % 256, (l(1) \div 256) + 16 * (l(2) % 16), l(2) \div 16, l(3) % 256, (l(3) \div 256) + 16 * (l(4) % 16), l(4) \div 16,
     l(5) % 256, l(5) \div 256 >>
XToD(x) == LET n == BgBits(x.m)
               k == n - 60
               c == BgScale(x.m, -k)
           IN IF BgZero(x.m) THEN FZero(0)
              ELSE FRnd(x.s, ToCell(c), k - XF, TRUE)
Bump(y, n) == Add(y, FromInt(n))
\* accepted there, refused 16 units away on both sides
TakesBy(c, y, k) == c[1] = -30 /\ RealOk(c, y) /\ ~RealOk(c, Bump(y, k)) /\ ~RealOk(c, Bump(y, -k))
Takes(c, y) == TakesBy(c, y, 16)
W1(w, x) == LET m == Exec([RBASE EXCEPT !.fs = Psh(EmptyF, x)], XT(w)) IN Entries(m.fs)
W2(w, x, y) == LET m == Exec([RBASE EXCEPT !.fs = Psh(Psh(EmptyF, x), y)], XT(w)) IN Entries(m.fs)
\* the double n/DEN, and its exact value
DA(n) == FDiv(FInt(n), FInt(DEN))
XA(n) == LET s == XSinCos(XMag(FDec(DA(IF n < 0 THEN -n ELSE n)))) IN IF n < 0 THEN <<XNeg(s[1]), s[2]>> ELSE s
Three == FInt(3)
Words ==
  SHAPE = "words" /\ RA # <<>> =>
    LET n == RA[1]  k == RB[1]
        x == DA(n)  r == XA(n)
        y == DA(k)
        s == XToD(r[1])  c == XToD(r[2])
        away == n # 0 /\ n < 2 * DEN /\ n > -2 * DEN
        \* where the inverse is well conditioned
        inner == n * 5 < 6 * DEN /\ n * 5 > -6 * DEN /\ n # 0
    IN /\ n = k =>
          /\ (n # 0 => Takes(W1("fsin", x)[1], s))
          /\ (n # 0 => Takes(W1("fcos", x)[1], c))
          /\ W1("fsincos", x) = <<W1("fsin", x)[1], W1("fcos", x)[1]>>
          /\ (n # 0 => LET t == FDiv(s, c) IN RealOk(W1("ftan", x)[1], t) /\ ~RealOk(W1("ftan", x)[1], Bump(t, 24)))
          /\ (inner => LET f == W1("fasin", s)[1] IN RealOk(f, x) /\ ~RealOk(f, Bump(x, 24)) /\ ~RealOk(f, Bump(x, -24)))
          /\ (inner /\ n * 5 > DEN => LET f == W1("facos", c)[1] IN RealOk(f, x) \/ n * 2 < DEN)
          /\ (inner => LET f == W1("fatan", FDiv(s, c))[1] IN RealOk(f, x) /\ ~RealOk(f, Bump(x, 24)) /\ ~RealOk(f, Bump(x, -24)))
          /\ (n # 0 /\ n < 3 * DEN /\ n > -3 * DEN =>
                LET f == W2("fatan2", s, c)[1] IN RealOk(f, x) /\ ~RealOk(f, Bump(x, 24)) /\ ~RealOk(f, Bump(x, -24)) /\ ~RealOk(f, FNeg(x)))
          /\ (n # 0 =>
                /\ Takes(W1("mm", x)[1], FDiv(x, FInt(1000))) /\ Takes(W1("msec", x)[1], FDiv(x, FInt(1000)))
                /\ Takes(W1("um", x)[1], FDiv(x, FInt(1000000))) /\ Takes(W1("usec", x)[1], FDiv(x, FInt(1000000)))
                /\ Takes(W1("hr", x)[1], FMul(x, FInt(3600))) /\ Takes(W1("minute", x)[1], FMul(x, FInt(60)))
                /\ Takes(W1("mm/min", x)[1], FDiv(x, FInt(60000))) /\ Takes(W1("mm/sec", x)[1], FDiv(x, FInt(1000)))
                /\ Takes(W1("um/msec", x)[1], FDiv(x, FInt(1000)))
                /\ Takes(W1("rpm", x)[1], FDiv(FMul(x, FPi), FInt(30)))
                /\ Takes(W1("deg", x)[1], FDiv(FMul(x, FPi), FInt(180))))
          /\ \A w \in {"meter", "rad", "sec", "hz", "1/sec"} : W1(w, x) = <<x>>
       /\ n > 0 =>
          /\ W2("f**", x, FZero(0)) = <<FInt(1)>>
          /\ (n # DEN => /\ TakesBy(W2("f**", x, FInt(2))[1], FMul(x, x), 40)
                         /\ TakesBy(W2("f**", x, FInt(-1))[1], FDiv(FInt(1), x), 40)
                         /\ TakesBy(W2("f**", x, FEnc(0, 1, -1))[1], FSqrt(x), 40)
                         /\ TakesBy(W2("f**", FNeg(x), Three)[1], FNeg(FMul(x, FMul(x, x))), 40)
                         /\ RealOk(W2("f**", FNeg(x), FEnc(0, 1, -1))[1], FNaN)
                         \* x^y * x^-y = 1: an accepted power is the inverse of an accepted one
                         /\ (k # 0 /\ k < 40 /\ k > -40 => LET f == W2("f**", x, FInt(k))[1]
                                        g == W2("f**", x, FInt(-k))[1]
                                        RECURSIVE up(_)
                                        up(i) == IF i = 0 THEN FInt(1) ELSE FMul(x, up(i - 1))
                                        j == IF k < 0 THEN -k ELSE k
                                    IN j < 6 => RealOk(IF k < 0 THEN g ELSE f, up(j)) /\ RealOk(IF k < 0 THEN f ELSE g, FDiv(FInt(1), up(j)))))

Vals == CASE SHAPE = "big" -> Bigs [] OTHER -> {<<n>> : n \in (IF SHAPE = "laws" THEN 0..NN ELSE -NN..NN)}
Init == RA = <<>> /\ RB = <<>> /\ RBASE = Boot
Next ==
  /\ RBASE' = RBASE
  /\ \/ RA = <<>> /\ RA' \in Vals /\ RB' = RA'
     \/ RA # <<>> /\ RA = RB /\ RA' = RA /\ RB' \in (IF SHAPE = "words" THEN {<<n>> : n \in -5..5} ELSE Vals) \ {RA}
View == <<RA, RB>>
Emitted == SHAPE = "words" /\ RA # <<>> => PrintT(<<"SCRIPT", DA(RA[1]), DA(RB[1])>>)
=============================================================================
