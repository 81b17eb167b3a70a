-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Transcendental and unit words: when is an observed double acceptable?   *)
(* The machine leaves a symbolic cell <<-30, op>> \o operands; RealOk      *)
(* decides whether a double is the result within KU units in the last      *)
(* place, computing with fixed-point numbers of 144 binary places, never   *)
(* with floating point.  A few guard bits (GUARD) cover the truncation of  *)
(* the series, so that no correctly rounded result is refused.             *)
(* RealMC checks the series against the laws of the functions.             *)
(***************************************************************************)
EXTENDS Fp

KU == 4
XF == 144                        \* binary places
XL == 12                         \* limbs behind the point
GUARD == BgPow2(24)              \* 2^-120
XOne == Rep(0, XL) \o <<1>>
XPi  == <<1033, 1098, 115, 55, 2606, 408, 787, 141, 1443, 2184, 3946, 579, 3>>
XPiH == <<516, 2597, 2105, 27, 1303, 2252, 2441, 2118, 721, 1092, 4021, 2337, 1>>
X2Pi == <<2914, 3085, 1245, 3923, 2001, 629, 2556, 338, 3652, 1764, 2435, 2607>>
XLn2 == <<243, 2804, 758, 63, 920, 3643, 3017, 1946, 463, 3965, 535, 2839>>

XMul(a, b) == BgTrim(BgDrop(BgMul(BgTrim(a), BgTrim(b)), XL))
XDiv(a, b) == BgDiv(Rep(0, XL) \o a, b)[1]
\* the magnitude of a decoded double
XMag(x) == BgTrim(BgScale(BgCell(x.m), XF + x.e))
DTop(x) == Bits(x.m) + x.e        \* 2^(DTop - 1) <= |x| < 2^DTop

\* ----- signed numbers [s, m] -----
XS(s, m) == [s |-> s, m |-> m]
XNeg(a) == [a EXCEPT !.s = 1 - a.s]
XAdd(a, b) == IF a.s = b.s THEN XS(a.s, BgAdd(a.m, b.m))
              ELSE IF BgLt(a.m, b.m) THEN XS(b.s, BgSub(b.m, a.m)) ELSE XS(a.s, BgSub(a.m, b.m))
XSub(a, b) == XAdd(a, XNeg(b))
XLe(a, b) == LET d == XSub(b, a) IN d.s = 0 \/ BgZero(d.m)
XTimes(a, b) == XS((a.s + b.s) % 2, XMul(a.m, b.m))

\* ----- series -----
\* sum of +t -t*z/((k+1)(k+2)) +...
RECURSIVE XTrig(_, _, _, _, _)
XTrig(z, t, k, plus, minus) ==      \* t: the term of degree k, positive next
  IF t = <<>> THEN (IF BgLt(plus, minus) THEN <<>> ELSE BgSub(plus, minus))
  ELSE LET t1 == BgTrim(BgDivS(XMul(t, z), (k + 1) * (k + 2))[1])
           t2 == BgTrim(BgDivS(XMul(t1, z), (k + 3) * (k + 4))[1])
       IN XTrig(z, t2, k + 4, BgAdd(plus, t), BgAdd(minus, t1))
XSin0(r) == XTrig(XMul(r, r), BgTrim(r), 1, <<>>, <<>>)
XCos0(r) == XTrig(XMul(r, r), XOne, 0, <<>>, <<>>)
\* <<sine, cosine>> of a non-negative number, signed
XSinCos(x) ==
  LET q0 == BgDrop(BgMul(BgTrim(x), X2Pi), 2 * XL)
      q1 == IF BgLt(x, BgMul(q0, XPiH)) THEN BgSub(q0, <<1>>) ELSE q0
      r1 == BgSub(x, BgMul(q1, XPiH))
      ge == BgLe(XPiH, r1)
      q == IF ge THEN BgAdd(q1, <<1>>) ELSE q1
      r == IF ge THEN BgSub(r1, XPiH) ELSE r1
      s == XSin0(r)
      c == XCos0(r)
      k == BgL(q, 1) % 4
  IN CASE k = 0 -> <<XS(0, s), XS(0, c)>>
       [] k = 1 -> <<XS(0, c), XS(1, s)>>
       [] k = 2 -> <<XS(1, s), XS(1, c)>>
       [] k = 3 -> <<XS(1, c), XS(0, s)>>
\* natural logarithm of a decoded positive double: signed
RECURSIVE XAtanh(_, _, _, _)
XAtanh(z2, t, k, acc) == IF t = <<>> THEN acc
                         ELSE XAtanh(z2, BgTrim(XMul(t, z2)), k + 2, BgAdd(acc, BgDivS(t, k)[1]))
XLn(x) ==
  LET v0 == BgScale(BgCell(x.m), XF - Bits(x.m))
      up == BgLt(v0, BgMulS(BgPow2(XF - 2), 3))                  \* below 3/4: use [1, 3/2)
      v == BgTrim(IF up THEN BgMulS(v0, 2) ELSE v0)
      e == IF up THEN DTop(x) - 1 ELSE DTop(x)
      lt == BgLt(v, XOne)
      z == BgTrim(XDiv(BgDiff(v, XOne), BgAdd(v, XOne)))
      l == XS(IF lt THEN 1 ELSE 0, BgMulS(XAtanh(XMul(z, z), z, 1, <<>>), 2))
      k == XS(IF e < 0 THEN 1 ELSE 0, BgMulS(XLn2, IF e < 0 THEN -e ELSE e))
  IN XAdd(l, k)

\* ----- acceptance -----
\* the unit in the last place of a double, as a fixed-point number
XUlp(b) == LET z == XF + (IF FExp(b) = 0 THEN -1074 ELSE FExp(b) - 1075) IN IF z < 0 THEN <<>> ELSE BgPow2(z)
XTol(b) == BgAdd(BgMulS(XUlp(b), KU), GUARD)
\* patterns at most KU apart
Close(a, b) == LET d == Sub(a, b) IN FSgn(a) = FSgn(b) /\ SmallInt(d) /\ ToInt(d) <= KU /\ ToInt(d) >= -KU
Fin(b) == FDec(b).ok
Sg(b) == XS(FSgn(b), XMag(FDec(b)))
Within(d, tol) == BgLe(d.m, tol)
Huge(b) == DTop(FDec(b)) > 40
Small(b) == FIsZero(b) \/ DTop(FDec(b)) < -30

SinOk(a, y) ==
  IF Small(a) THEN Close(a, y)
  ELSE IF Huge(a) THEN TRUE
  ELSE LET r == XSinCos(XMag(FDec(a)))
           s == IF FSgn(a) = 1 THEN XNeg(r[1]) ELSE r[1]
       IN Within(XSub(Sg(y), s), XTol(y))
CosOk(a, y) ==
  IF Huge(a) THEN TRUE
  ELSE Within(XSub(Sg(y), XSinCos(XMag(FDec(a)))[2]), XTol(y))
TanOk(a, y) ==
  IF Small(a) THEN Close(a, y)
  ELSE IF Huge(a) THEN TRUE
  ELSE LET r == XSinCos(XMag(FDec(a)))
           s == IF FSgn(a) = 1 THEN XNeg(r[1]) ELSE r[1]
       IN DTop(FDec(y)) < 70
          /\ Within(XSub(XTimes(Sg(y), r[2]), s), BgAdd(XMul(XTol(y), r[2].m), BgAdd(GUARD, XMul(XMag(FDec(y)), GUARD))))
\* sine is increasing up to pi/2
AsinOk(a, y) ==
  IF Small(a) THEN Close(a, y)
  ELSE LET x == XMag(FDec(a))
           v == XMag(FDec(y))
           tol == XTol(y)
           lo == IF BgLt(v, tol) THEN <<>> ELSE BgSub(v, tol)
           hi == BgAdd(v, tol)
       IN /\ FSgn(y) = FSgn(a)
          /\ BgLe(lo, XPiH)
          /\ BgLe(XSinCos(lo)[1].m, BgAdd(x, GUARD))
          /\ (BgLe(XPiH, hi) \/ BgLe(x, BgAdd(XSinCos(hi)[1].m, GUARD)))
\* cosine is decreasing up to pi
AcosOk(a, y) ==
  LET x == Sg(a)
      v == XMag(FDec(y))
      tol == XTol(y)
      lo == IF BgLt(v, tol) THEN <<>> ELSE BgSub(v, tol)
      hi == BgAdd(v, tol)
      g == XS(0, GUARD)
  IN /\ (FSgn(y) = 0 \/ FIsZero(y))
     /\ BgLe(lo, XPi)
     /\ XLe(x, XAdd(XSinCos(lo)[2], g))
     /\ (BgLe(XPi, hi) \/ XLe(XSinCos(hi)[2], XAdd(x, g)))
\* the angle y of the point (t, n): t sin y = n cos y, on the right side
Atan2Ok(n, t, y) ==
  LET dn == FDec(n)
      dt == FDec(t)
      top == IF FIsZero(n) THEN DTop(dt) ELSE IF FIsZero(t) \/ DTop(dn) > DTop(dt) THEN DTop(dn) ELSE DTop(dt)
      xn == XS(dn.s, XMag([dn EXCEPT !.e = dn.e - top]))
      xt == XS(dt.s, XMag([dt EXCEPT !.e = dt.e - top]))
      r == XSinCos(XMag(FDec(y)))
      s == IF FSgn(y) = 1 THEN XNeg(r[1]) ELSE r[1]
      c == r[2]
      tol == XTol(y)
  IN IF FIsZero(n) /\ FIsZero(t) THEN TRUE
     ELSE /\ BgLe(XMag(FDec(y)), BgAdd(XPi, tol))
          /\ (FIsZero(n) \/ FSgn(y) = FSgn(n))
          /\ IF ~FIsZero(n) /\ ~FIsZero(t) /\ (DTop(dn) - DTop(dt) > 60 \/ DTop(dt) - DTop(dn) > 60) THEN TRUE
             ELSE /\ Within(XSub(XTimes(xt, s), XTimes(xn, c)), BgAdd(XMul(tol, BgAdd(xn.m, xt.m)), GUARD))
                  /\ LET p == XAdd(XTimes(xt, c), XTimes(xn, s)) IN p.s = 0
AtanOk(a, y) == IF Small(a) THEN Close(a, y) ELSE Atan2Ok(a, FInt(1), y)

\* ----- powers -----
IsInt(b) == FIsZero(b) \/ FDec(b).e >= 0
IsOdd(b) == ~FIsZero(b) /\ FDec(b).e = 0
\* log2 e * 2^-52 <= 2^-52 * 2
LnTol == BgMulS(BgPow2(XF - 52), 2 * KU)
PowOk(n, t, y) ==
  LET dn == FDec(n)
      dt == FDec(t)
      L == XLn([dn EXCEPT !.s = 0])
      p == XTimes(XS(dt.s, XMag(dt)), L)                         \* ln |y|
      one == dn.m = One /\ dn.e = 0
      up == IF one THEN FALSE ELSE L.s = dt.s                    \* |y| > 1
      lim(k) == Rep(0, XL) \o BgInt(k)
  IN IF FIsZero(t) THEN y = FInt(1)
     ELSE IF FIsZero(n) THEN (IF dt.s = 0 THEN FIsZero(y) ELSE FIsInf(y))
     ELSE IF dn.s = 1 /\ ~IsInt(t) THEN FIsNaN(y)
     ELSE IF FIsNaN(y) THEN FALSE
     ELSE /\ FSgn(y) = (IF dn.s = 1 /\ IsOdd(t) THEN 1 ELSE 0)
          /\ IF one THEN FAbs(y) = FInt(1)
             ELSE IF DTop(dt) > 64 THEN (IF up THEN FIsInf(y) ELSE Fin(y) /\ FExp(y) = 0)
             ELSE IF FIsInf(y) THEN p.s = 0 /\ BgLt(lim(709), p.m)
             ELSE IF FExp(y) = 0 THEN p.s = 1 /\ BgLt(lim(708), p.m)
             ELSE Within(XSub(p, XLn([FDec(y) EXCEPT !.s = 0])), BgAdd(LnTol, BgPow2(76)))

\* ----- scaling: y = x * num / den (* pi) -----
ScaleOk(num, den, pi, a, y) ==
  LET da == FDec(a)
      dy == FDec(y)
      z == 10 - DTop(dy)
      Y == BgMul(XMag([dy EXCEPT !.e = dy.e + z]), den)
      X0 == BgMul(XMag([da EXCEPT !.e = da.e + z]), num)
      X == IF pi = 1 THEN XMul(X0, XPi) ELSE X0
      ulp == BgPow2(XF + 10 - 53)
  IN IF FIsZero(a) THEN y = a
     ELSE IF DTop(da) > 990 \/ DTop(da) < -960 THEN TRUE
     ELSE /\ Fin(y) /\ ~FIsZero(y)
          /\ FSgn(y) = FSgn(a)
          /\ DTop(da) - DTop(dy) < 60 /\ DTop(dy) - DTop(da) < 60
          /\ BgLe(BgDiff(X, Y), BgAdd(BgMulS(BgMul(ulp, den), KU), BgMul(GUARD, num)))

\* ----- literals: y = n * 10^up / 10^down -----
LitOk(sg, n, up, down, y) ==
  LET dy == FDec(y)
      z == 10 - DTop(dy)
      Y == BgMul(XMag([dy EXCEPT !.e = dy.e + z]), BgPow(10, down))
      X == BgTrim(BgScale(BgMul(n, BgPow(10, up)), XF + z))
      ulp == BgMul(BgPow2(XF + 10 - 53), BgPow(10, down))
  IN /\ Fin(y) /\ ~FIsZero(y) /\ FSgn(y) = sg
     /\ BgLe(BgDiff(X, Y), BgMulS(ulp, KU))

\* arguments of a symbolic cell
Arg(c, i) == SubSeq(c, 8 * i - 5, 8 * i + 2)
ScaleTab == Force([k \in 20..29 |->
  CASE k = 20 -> <<<<1>>, BgInt(1000), 0>>                       \* mm, msec
    [] k = 21 -> <<<<1>>, BgPow(10, 6), 0>>                      \* um, usec
    [] k = 22 -> <<<<1>>, BgInt(180), 1>>                        \* deg
    [] k = 23 -> <<BgInt(3600), <<1>>, 0>>                       \* hr
    [] k = 24 -> <<BgInt(60), <<1>>, 0>>                         \* minute
    [] k = 25 -> <<<<1>>, BgMulS(BgInt(60), 1000), 0>>           \* mm/min
    [] k = 26 -> <<<<1>>, BgInt(30), 1>>                         \* rpm
    [] OTHER -> <<<<1>>, <<1>>, 0>>])
RealOk(c, y) ==
  LET op == c[2]
      a == Arg(c, 1)
      b == Arg(c, 2)
  IN CASE op = 1 -> Fin(y) /\ SinOk(a, y)
       [] op = 2 -> Fin(y) /\ CosOk(a, y)
       [] op = 3 -> Fin(y) /\ TanOk(a, y)
       [] op = 4 -> Fin(y) /\ AsinOk(a, y)
       [] op = 5 -> Fin(y) /\ AcosOk(a, y)
       [] op = 6 -> Fin(y) /\ AtanOk(a, y)
       [] op = 7 -> Fin(y) /\ Atan2Ok(a, b, y)
       [] op = 8 -> PowOk(a, b, y)
       [] op = 9 -> Fin(y) /\ LitOk(c[3], SubSeq(c, 6, Len(c)), c[4], c[5], y)
       [] OTHER -> LET s == ScaleTab[op] IN ScaleOk(s[1], s[2], s[3], a, y)
=============================================================================
