------------------------------- MODULE FloatMC -------------------------------
(***************************************************************************)
(* Floating point.                                                         *)
(*  "pairs"  all pairs of eighths a/8, b/8 with |a|, |b| <= NN: the words  *)
(*           give what rational arithmetic gives;                          *)
(*  "wide"   all pairs of numbers near powers of two, with up to 53 bits:  *)
(*           the laws of arithmetic and order hold;                        *)
(*  "round"  pairs of numbers of all magnitudes, also subnormal: results    *)
(*           are the nearest double, ties to even, by bignum arithmetic;   *)
(*  "tokens" all tokens of up to NN characters: which are literals, and    *)
(*           of what value, interpreted and compiled.                      *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE, NN, EXPS
VARIABLES UA, UB, UBASE
\* ----- eighths -----
\* the double n / 2^k for an integer n: the long way round
RECURSIVE Halved(_, _)
Halved(f, k) == IF k = 0 THEN f ELSE Halved(FDiv(f, FInt(2)), k - 1)
Q(n, k) == IF n = 0 THEN FZero(0) ELSE Halved(FInt(n), k)
With2(x, y) == [UBASE EXCEPT !.fs = Psh(Psh(EmptyF, x), y)]
Fs(m) == Entries(m.fs)
Ds(m) == Entries(m.ds)
\* the float result of a word; the flag
FR(w, x, y) == LET m == Exec(With2(x, y), XT(w))
               IN IF m.err = 0 /\ m.bad = "" /\ m.fs.n = 1 /\ m.ds.n = 0 THEN Fs(m)[1] ELSE <<"no">>
FF(w, x, y) == LET m == Exec(With2(x, y), XT(w))
               IN IF m.err = 0 /\ m.bad = "" /\ m.fs.n = 0 /\ Len(Ds(m)) = 1 THEN Ds(m)[1] ELSE <<"no">>
F1R(w, x) == LET m == Exec([UBASE EXCEPT !.fs = Psh(EmptyF, x)], XT(w))
             IN IF m.err = 0 /\ m.bad = "" /\ m.fs.n = 1 /\ m.ds.n = 0 THEN Fs(m)[1] ELSE <<"no">>
F1D(w, x) == LET m == Exec([UBASE EXCEPT !.fs = Psh(EmptyF, x)], XT(w))
             IN IF m.err = 0 /\ m.bad = "" /\ m.fs.n = 0 /\ m.ds.n = 1 THEN Ds(m)[1] ELSE <<"no">>
S2F(c) == LET m == Exec([UBASE EXCEPT !.ds = Psh(EmptyD, c)], XT("s>f"))
          IN IF m.err = 0 /\ m.fs.n = 1 /\ m.ds.n = 0 THEN Fs(m)[1] ELSE <<"no">>
Same0(x, y) == x = y \/ {x, y} = {FZero(0), FZero(1)}     \* the sign of zero is left open
FlagOf(b) == IF b THEN Ones ELSE Zero
FloorDiv(a, k) == a \div k           \* TLA+ rounds towards minus infinity
TruncDiv(a, k) == IF a < 0 THEN -((-a) \div k) ELSE a \div k
RoundDiv(a, k) == IF a < 0 THEN -((2 * (-a) + k) \div (2 * k)) ELSE (2 * a + k) \div (2 * k)
Rationals ==
  SHAPE = "pairs" /\ UA # <<>> =>
    LET a == UA[1]  b == UB[1]  x == Q(a, 3)  y == Q(b, 3)
        Abs_(n) == IF n < 0 THEN -n ELSE n
    IN /\ Same0(FR("f+", x, y), Q(a + b, 3))
       /\ Same0(FR("f-", x, y), Q(a - b, 3))
       /\ Same0(FR("f*", x, y), Q(a * b, 6))
       /\ (b # 0 /\ a % Abs_(b) = 0 => Same0(FR("f/", x, y), Q(IF b < 0 THEN -(a \div Abs_(b)) ELSE a \div b, 0)))
       /\ FR("fmin", x, y) = Q(IF a < b THEN a ELSE b, 3)
       /\ FR("fmax", x, y) = Q(IF a < b THEN b ELSE a, 3)
       /\ FF("f<", x, y) = FlagOf(a < b)
       /\ a = b =>
          /\ Same0(F1R("fnegate", x), Q(-a, 3)) /\ F1R("fabs", x) = Q(Abs_(a), 3)
          /\ Same0(F1R("floor", x), Q(FloorDiv(a, 8), 0))
          /\ Same0(F1R("fceil", x), Q(-FloorDiv(-a, 8), 0))
          /\ Same0(F1R("fround", x), Q(RoundDiv(a, 8), 0))
          /\ F1D("f>s", x) = FromInt(TruncDiv(a, 8))
          /\ S2F(FromInt(a)) = Q(a, 0)
          /\ F1D("f0<", x) = FlagOf(a < 0) /\ F1D("f0=", x) = FlagOf(a = 0)
       \* x y z f~ with z = 0, z > 0, z < 0
       /\ \A z \in {0, 4, -4} :
            LET m == Exec([UBASE EXCEPT !.fs = Psh(Psh(Psh(EmptyF, x), y), Q(z, 3))], XT("f~"))
                want == CASE z = 0 -> a = b [] z > 0 -> Abs_(a - b) < z [] OTHER -> 2 * Abs_(a - b) < Abs_(a) + Abs_(b)
            IN m.fs.n = 0 /\ Ds(m) = <<FlagOf(want)>>

\* ----- wide -----
\* s * (2^k + d) * 2^e as a cell and an exponent
Mants == {<<k, d>> : k \in {0, 1, 23, 24, 29, 31, 32, 51, 52}, d \in {-1, 0, 1}} \cup {<<53, -1>>, <<53, 0>>}
Wides == {<<s, Add(Shl(One, x[1]), FromInt(x[2])), e>> : s \in {0, 1}, x \in Mants, e \in {z - 54 : z \in EXPS}}
WV(u) == FEncC(u[1], u[2], u[3])
Known_(x) == Len(x) = 8 /\ x[1] >= 0 /\ ~FIsInf(x)
\* the number (-1)^s * n * 2^e / d, by natural numbers, compared with the finite double r
Near(x, r) ==        \* <<distance, half a unit of r, is x below r in magnitude, unit scale>>
  LET f == FDec(r)
      q == IF FExp(r) = 0 THEN -1074 ELSE FExp(r) - 1075
      E == (IF x.e < q THEN x.e ELSE q) - 2
      X == BgShl(x.n, x.e - E)
      R == IF FIsZero(r) THEN <<>> ELSE BgMul(BgShl(BgCell(f.m), f.e - E), x.d)
      sum == BgAdd(X, R)
  IN [d |-> IF FSgn(r) = x.s THEN BgDiff(X, R) ELSE sum, low |-> FSgn(r) = x.s /\ BgLt(X, R),
      half |-> BgShl(x.d, q - 1 - E), even |-> r[1] % 2 = 0,
      pow |-> r[1] = 0 /\ AllZ6(r) /\ r[7] % 16 = 0 /\ FExp(r) > 1]
Nearest(x, r) ==
  IF BgZero(x.n) THEN FIsZero(r)
  ELSE IF FIsInf(r) THEN FSgn(r) = x.s /\ BgLe(BgMul(BgShl(BgSub(BgPow2(54), <<1>>), 1500), x.d), BgShl(x.n, x.e + 1500 - 970))
  ELSE LET z == Near(x, r)
           h == IF z.pow /\ z.low THEN BgShl(z.d, 1) ELSE z.d
       IN r[1] >= 0 /\ (BgLt(h, z.half) \/ (z.even /\ BgLe(h, z.half)))
Exactly(x, r) == Known_(r) /\ IF BgZero(x.n) THEN FIsZero(r) ELSE BgZero(Near(x, r).d)
NumOf(a) == LET f == FDec(a) IN [s |-> FSgn(a), n |-> BgTrim(BgCell(f.m)), d |-> <<1>>, e |-> f.e]
SumOf(a, b) ==
  LET x == NumOf(a)  y == NumOf(b)
      E == IF x.e < y.e THEN x.e ELSE y.e
      m == BgShl(x.n, x.e - E)  n == BgShl(y.n, y.e - E)
  IN IF x.s = y.s THEN [s |-> x.s, n |-> BgAdd(m, n), d |-> <<1>>, e |-> E]
     ELSE [s |-> IF BgLt(m, n) THEN y.s ELSE x.s, n |-> BgDiff(m, n), d |-> <<1>>, e |-> E]
ProdOf(a, b) == LET x == NumOf(a)  y == NumOf(b)
                IN [s |-> (x.s + y.s) % 2, n |-> BgMul(x.n, y.n), d |-> <<1>>, e |-> x.e + y.e]
QuotOf(a, b) == LET x == NumOf(a)  y == NumOf(b)
                IN [s |-> (x.s + y.s) % 2, n |-> x.n, d |-> y.n, e |-> x.e - y.e]
\* ----- round -----
Seeds == {<<k, d>> : k \in {0, 2, 26}, d \in {1, 3}} \cup {<<52, 1>>, <<53, -1>>, <<52, 20021>>, <<51, 77777>>, <<52, 1048575>>}
Rounds == {FEncC(s, Add(Shl(One, x[1]), FromInt(x[2])), e - 1074) : s \in {0, 1}, x \in Seeds, e \in EXPS}
Rounded ==
  SHAPE = "round" /\ UA # <<>> =>
    LET x == UA  y == UB
        s == FR("f+", x, y)  d == FR("f-", x, y)  p == FR("f*", x, y)  q == FR("f/", x, y)
        lt == FF("f<", x, y) = Ones
    IN /\ Nearest(SumOf(x, y), s) /\ Nearest(SumOf(x, FNeg(y)), d)
       /\ Nearest(ProdOf(x, y), p)
       /\ (~FIsZero(y) => Nearest(QuotOf(x, y), q))
       /\ lt = (LET z == SumOf(x, FNeg(y)) IN z.s = 1 /\ ~BgZero(z.n))
       /\ (x = y =>
            /\ d = FZero(0) /\ q = FInt(1)
            /\ LET r == F1R("fsqrt", FAbs(x))
                   f == FDec(r)
                   q2 == FExp(r) - 1075
                   \* the mantissa of r with 53 bits, doubled
                   m == BgShl(BgCell(f.m), f.e - q2 + 1)
                   g == FDec(x)
                   k == IF g.e + 2 < 2 * q2 THEN 2 * q2 - g.e - 2 ELSE 0
               IN Known_(r) /\ LET lo == BgSub(m, <<1>>)  hi == BgAdd(m, <<1>>)
                                   X == BgShl(BgCell(g.m), g.e + 2 - 2 * q2 + k)
                               IN BgLe(BgShl(BgMul(lo, lo), k), X) /\ BgLe(X, BgShl(BgMul(hi, hi), k))
            /\ LET c == F1D("f>s", x) IN Num(c)
            /\ Nearest(NumOf(x), x))
Laws ==
  SHAPE = "wide" /\ UA # <<>> =>
    LET x == WV(UA)  y == WV(UB)
        lt == FF("f<", x, y) = Ones
        gt == FF("f<", y, x) = Ones
        s == FR("f+", x, y)
        d == FR("f-", x, y)
        p == FR("f*", x, y)
    IN /\ Known_(x) /\ Known_(y)
       /\ ~(lt /\ gt) /\ ((~lt /\ ~gt) <=> Same0(x, y))
       /\ FF("f<", F1R("fnegate", y), F1R("fnegate", x)) = FlagOf(lt)
       /\ (~Same0(x, y) => FR("fmin", x, y) = (IF lt THEN x ELSE y) /\ FR("fmax", x, y) = (IF lt THEN y ELSE x))
       /\ s = FR("f+", y, x) /\ p = FR("f*", y, x)
       /\ (Exactly(SumOf(x, y), s) => Same0(FR("f-", s, y), x))
       /\ (Known_(d) => ((F1D("f0<", d) = Ones) <=> lt) /\ ((F1D("f0=", d) = Ones) <=> (~lt /\ ~gt)))
       /\ (Exactly(ProdOf(x, y), p) /\ UB[2] # Zero => Same0(FR("f/", p, y), x))
       /\ UA = UB =>
          LET c == F1D("f>s", x)
              fl == F1R("floor", x)  ce == F1R("fceil", x)  ro == F1R("fround", x)
              whole == UA[2] = Zero \/ UA[3] >= 0 \/ Shl(Shr(UA[2], -UA[3]), -UA[3]) = UA[2]
              half == FEnc(0, 1, -1)
          IN /\ Same0(F1R("fnegate", F1R("fnegate", x)), x)
             /\ F1R("fabs", x) = F1R("fabs", F1R("fnegate", x)) /\ F1D("f0<", F1R("fabs", x)) = Zero
             /\ (whole => fl = x /\ ce = x /\ ro = x)
             /\ (~whole => /\ FF("f<", fl, x) = Ones /\ FF("f<", x, ce) = Ones
                           /\ FR("f-", ce, fl) = FInt(1) /\ ro \in {fl, ce}
                           /\ Same0(fl, F1R("fnegate", F1R("fceil", F1R("fnegate", x))))
                           \* nearest, a tie away from zero
                           /\ LET mid == FR("f+", fl, half)
                              IN ro = (IF x = mid THEN (IF UA[1] = 1 THEN fl ELSE ce) ELSE IF FF("f<", x, mid) = Ones THEN fl ELSE ce))
             \* back from a cell to the truncated number
             /\ (Num(c) => S2F(c) = (IF ~whole THEN (LET t == IF UA[1] = 1 THEN ce ELSE fl IN IF Same0(t, FZero(0)) THEN FZero(0) ELSE t)
                                     ELSE IF UA[2] = Zero THEN FZero(0) ELSE x))
             /\ (UA[3] = 0 => F1D("f>s", x) = (IF UA[1] = 1 THEN Neg(UA[2]) ELSE UA[2]))

\* ----- tokens -----
Letters == {45, 43, 49, 53, 48, 46, 101, 69}      \* - + 1 5 0 . e E
\* a small automaton: S signed? I digits F fraction E exponent sign X exponent
RECURSIVE Scan(_, _, _, _)
Dig(c) == c \in 48..57
\* [state, neg, n digits of the number, k digits behind the point, eneg, x exponent]
Scan(t, i, st, r) ==
  IF i > Len(t) THEN [r EXCEPT !.st = st]
  ELSE LET c == t[i]
       IN CASE st = "start" /\ c \in {43, 45} -> Scan(t, i + 1, "signed", [r EXCEPT !.neg = c = 45])
            [] st \in {"start", "signed", "int"} /\ Dig(c) -> Scan(t, i + 1, "int", [r EXCEPT !.n = 10 * r.n + c - 48])
            [] st = "int" /\ c = 46 -> Scan(t, i + 1, "frac", r)
            [] st = "frac" /\ Dig(c) -> Scan(t, i + 1, "frac", [r EXCEPT !.n = 10 * r.n + c - 48, !.k = r.k + 1])
            [] st \in {"int", "frac"} /\ c \in {69, 101} -> Scan(t, i + 1, "e", r)
            [] st = "e" /\ c \in {43, 45} -> Scan(t, i + 1, "exp", [r EXCEPT !.eneg = c = 45])
            [] st \in {"e", "exp"} /\ Dig(c) -> Scan(t, i + 1, "exp", [r EXCEPT !.x = 10 * r.x + c - 48])
            [] OTHER -> [r EXCEPT !.st = "no"]
ScanAll(t) == Scan(t, 1, "start", [st |-> "", neg |-> FALSE, n |-> 0, k |-> 0, eneg |-> FALSE, x |-> 0])
RECURSIVE Twos(_), Fives(_)
Twos(n) == IF n % 2 = 0 THEN Twos(n \div 2) ELSE n
Fives(n) == IF n % 5 = 0 THEN 1 + Fives(n \div 5) ELSE 0
RECURSIVE Tens(_, _)
Tens(f, p) == IF p = 0 \/ f[1] < 0 THEN f ELSE Tens(FR("f*", f, FInt(10)), p - 1)
\* n * 10^p as a double, if it is one (p < 0: n must have the fives)
Dec(n, p) == IF n = 0 THEN FZero(0)
             ELSE IF p >= 0 THEN Tens(FInt(n), p)
             ELSE IF Fives(n) < -p THEN ANYF ELSE Halved(FInt(n \div Pow(5, -p)), -p)
FZeroOf(r) == IF r.neg THEN FNeg(Dec(r.n, (IF r.eneg THEN -r.x ELSE r.x) - r.k)) ELSE Dec(r.n, (IF r.eneg THEN -r.x ELSE r.x) - r.k)
\* the specification need not know numbers with an inexact fraction, or far away
Tokens ==
  SHAPE = "tokens" /\ UA # <<>> /\ Find(UBASE, Lower(UA)) < 0 =>
    LET r == ScanAll(UA)
        m == Feed(UBASE, UA)
        c == Feed(UBASE, S2B(": z ") \o UA \o S2B(" ; z"))
        Is(w) == CASE r.st = "int" -> w.err = 0 /\ w.fs.n = 0 /\ Ds(w) = <<FromInt(IF r.neg THEN -r.n ELSE r.n)>>
                   [] r.st \in {"e", "exp"} -> /\ w.err = 0 /\ w.ds.n = 0 /\ w.fs.n = 1
                                               /\ LET f == Fs(w)[1] IN f[1] < 0 \/ f = FZeroOf(r)
                   [] OTHER -> w.err = E_UNDEF /\ w.fs.n = 0 /\ w.ds.n = 0
        plain == r.k = 0 /\ r.x < 7
    IN /\ m.bad = "" /\ c.bad = "" /\ Is(m) /\ Is(c)
       /\ (plain /\ r.st \in {"e", "exp"} /\ ~r.eneg => Fs(m)[1] # ANYF)
       /\ (r.st \in {"e", "exp"} /\ r.x = 0 /\ r.n % 5^r.k = 0 => Fs(m)[1] # ANYF)

Eighths == {<<n>> : n \in -NN..NN}
Vals == IF SHAPE = "pairs" THEN Eighths ELSE IF SHAPE = "round" THEN Rounds ELSE Wides
Init == UA = <<>> /\ UB = <<>> /\ UBASE = Boot
Next ==
  /\ UBASE' = UBASE
  /\ IF SHAPE = "tokens"
     THEN Len(UA) < NN /\ UB' = <<>> /\ \E ch \in Letters : UA' = Append(UA, ch)
     ELSE \/ UA = <<>> /\ UA' \in Vals /\ UB' = UA'
          \/ UA # <<>> /\ UA = UB /\ UA' = UA /\ UB' \in Vals \ {UA}
View == <<UA, UB>>
Emitted == UA # <<>> => IF SHAPE = "pairs" THEN UA # UB => PrintT(<<"SCRIPT", UA[1], UB[1]>>)
                        ELSE IF SHAPE \in {"wide", "round"} THEN UA # UB => PrintT(<<"SCRIPT", UA, UB>>)
                        ELSE PrintT(<<"SCRIPT", UA>>)
=============================================================================
