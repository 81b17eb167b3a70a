------------------------------- MODULE ArithMC -------------------------------
(***************************************************************************)
(* The arithmetic, logic, comparison and range words of the machine at its *)
(* real width, on all pairs of boundary operands.  Results are             *)
(* characterised by laws that determine them uniquely.                     *)
(***************************************************************************)
EXTENDS Host
CONSTANT DEEP        \* larger operand set
VARIABLES OPA, OPB
I(n) == FromInt(n)
P2(k) == Shl(One, k)
Small == {0, 1, 2, 3, 7, 8, 10, 63, 64, 255, 256}
Big == {P2(k) : k \in {15, 31, 32, 47, 62, 63}}
Near(c) == {c, Add(c, One), Sub(c, One), Neg(c)}
Vals == {I(n) : n \in Small} \cup {I(-n) : n \in Small}
        \cup (IF DEEP THEN UNION {Near(P2(k)) : k \in 8..63} ELSE UNION {Near(x) : x \in Big})
        \cup {<<85, 85, 85, 85, 85, 85, 85, 85>>, <<170, 170, 170, 170, 170, 170, 170, 170>>, <<8, 7, 6, 5, 4, 3, 2, 1>>,
              <<248, 247, 246, 245, 244, 243, 242, 241>>}
\* (the second operand is chosen in a step so that TLC's workers share the work)
Init == OPA \in Vals /\ OPB = <<>>
Next == OPB = <<>> /\ OPB' \in Vals /\ UNCHANGED OPA

On(xs, w) == Exec([Boot EXCEPT !.ds = PshAll(EmptyD, xs, 1)], XT(w))
R(xs, w) == LET v == On(xs, w) IN Entries(v.ds)
R1(w) == LET r == R(<<One, OPA>>, w) IN IF Len(r) = 2 /\ r[1] = One THEN r[2] ELSE UNK
R2(w) == LET r == R(<<One, OPA, OPB>>, w) IN IF Len(r) = 2 /\ r[1] = One THEN r[2] ELSE UNK
R3(c, w) == LET r == R(<<One, c, OPA, OPB>>, w) IN IF Len(r) = 2 /\ r[1] = One THEN r[2] ELSE UNK
T == Ones
F == Zero
IsFlag(c) == c \in {T, F}
B(c) == c = T
BitsAre == 0..(CellBits - 1)
\* a < b as signed numbers: compare sign, then the highest bit that differs
Less(a, b) ==
  IF Bit(a, 63) # Bit(b, 63) THEN Bit(a, 63) = 1
  ELSE \E k \in BitsAre : Bit(a, k) = 0 /\ Bit(b, k) = 1 /\ \A j \in (k + 1)..63 : Bit(a, j) = Bit(b, j)

Sums == /\ Sub(R2("+"), OPB) = OPA /\ R2("+") = Add(BXor(OPA, OPB), Shl(BAnd(OPA, OPB), 1))
        /\ Add(R2("-"), OPB) = OPA
        /\ R1("1+") = Add(OPA, One) /\ Add(R1("1-"), One) = OPA
        /\ Add(R1("negate"), OPA) = Zero
        /\ R1("abs") = (IF Bit(OPA, 63) = 1 THEN R1("negate") ELSE OPA)
        /\ R1("2*") = Add(OPA, OPA)
        /\ R1("cells") = Shl(OPA, 3) /\ R1("char+") = R1("1+") /\ R1("chars") = OPA
        /\ R1("cell+") = Add(OPA, I(8))
        /\ R1("aligned") = (IF \A k \in 0..2 : Bit(OPA, k) = 0 THEN OPA ELSE Shl(Shr(Add(OPA, I(8)), 3), 3))
RECURSIVE MulBits(_, _, _)
MulBits(a, b, k) == IF k = 64 THEN Zero
                    ELSE Add(IF Bit(b, k) = 1 THEN Shl(a, k) ELSE Zero, MulBits(a, b, k + 1))
Product == R2("*") = MulBits(OPA, OPB, 0)
Quotients ==
  IF OPB = Zero
  THEN \A w \in {"/", "mod", "/mod"} :
         LET v == On(<<One, OPA, OPB>>, w) IN v.err = E_DIV /\ Entries(v.ds) = <<>>
  ELSE LET qr == R(<<One, OPA, OPB>>, "/mod")
           r == qr[2]
           q == qr[3]
       IN /\ Len(qr) = 3 /\ R2("/") = q /\ R2("mod") = r
          /\ Add(MulBits(q, OPB, 0), r) = OPA
          /\ ULt(Abs(r), Abs(OPB))
          /\ r = Zero \/ IsNeg(r) = IsNeg(OPA)
          \* |q| |b| <= |a| : the quotient is truncated, not wrapped
          /\ q = Zero \/ ULe(Abs(q), Abs(OPA))
Halves == LET h == R1("2/") IN LET r == Sub(OPA, Add(h, h)) IN r \in {Zero, One, Ones} /\ (r = Zero \/ IsNeg(r) = IsNeg(OPA))
Compare == LET ab == Less(OPA, OPB) ba == Less(OPB, OPA) IN
           /\ R2("<") = Flag(ab) /\ R2(">") = Flag(ba)
           /\ R2("<=") = Flag(~ba) /\ R2(">=") = Flag(~ab)
           /\ R2("=") = Flag(OPA = OPB) /\ R2("<>") = Flag(OPA # OPB)
           /\ R1("0<") = Flag(Less(OPA, Zero)) /\ R1("0>") = Flag(Less(Zero, OPA))
           /\ R1("0=") = Flag(OPA = Zero) /\ R1("0<>") = Flag(OPA # Zero) /\ R1("not") = R1("0=")
           /\ R2("max") = (IF ab THEN OPB ELSE OPA)
           /\ R2("min") = (IF ab THEN OPA ELSE OPB)
           /\ \A c \in {Zero, OPA, OPB, MinC, MaxC} :
                R3(c, "within") = Flag(~Less(c, OPA) /\ Less(c, OPB))
Bitwise == LET an == R2("and") orr == R2("or") xo == R2("xor") inv == R1("invert")
           IN \A k \in BitsAre : /\ Bit(an, k) = Bit(OPA, k) * Bit(OPB, k)
                              /\ Bit(orr, k) = (IF Bit(OPA, k) + Bit(OPB, k) > 0 THEN 1 ELSE 0)
                              /\ Bit(xo, k) = (Bit(OPA, k) + Bit(OPB, k)) % 2
                              /\ Bit(inv, k) = 1 - Bit(OPA, k)
Shift(w, k) == R(<<OPA, I(k)>>, w)
Shifts == OPB = Zero => \A n \in 0..63 :
            LET l == Shift("lshift", n)[1] r == Shift("rshift", n)[1]
            IN \A k \in {0, 1, 7, 8, 31, 32, 62, 63} :
                 /\ Bit(l, k) = (IF k >= n THEN Bit(OPA, k - n) ELSE 0)
                 /\ Bit(r, k) = (IF k + n <= 63 THEN Bit(OPA, k + n) ELSE 0)
\* the laws
Laws == OPB # <<>> => Sums /\ Product /\ Quotients /\ Halves /\ Compare /\ Bitwise /\ Shifts
Emitted == OPB # <<>> => PrintT(<<"SCRIPT", OPA, OPB>>)
=============================================================================
