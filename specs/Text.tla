-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text as sequences of bytes: character classes, tokens, number syntax,   *)
(* numerals.  Everything a line of source text can mean before it meets    *)
(* the dictionary.                                                         *)
(***************************************************************************)
EXTENDS Cell

ASCII == " !\"#$" \o "%" \o "&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == Force([c \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
             31 + CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c])
RECURSIVE S2BR(_, _, _)
S2BR(s, i, acc) == IF i > Len(s) THEN acc ELSE S2BR(s, i + 1, Append(acc, CodeOf[SubSeq(s, i, i)]))
\* bytes of a (printable ASCII) TLA+ string
S2B(s) == S2BR(s, 1, <<>>)

IsBlank(b) == b = 32 \/ b = 9 \/ b = 10 \/ b = 13
LowerB(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
RECURSIVE LowerR(_, _, _)
LowerR(s, i, acc) == IF i > Len(s) THEN acc ELSE LowerR(s, i + 1, Append(acc, LowerB(s[i])))
Lower(s) == LowerR(s, 1, <<>>)

\* ----- tokens.  Positions are byte offsets from 0. -----
RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, p) == IF p < Len(s) /\ IsBlank(s[p + 1]) THEN SkipBlanks(s, p + 1) ELSE p
RECURSIVE TokenEnd(_, _)
TokenEnd(s, p) == IF p < Len(s) /\ ~IsBlank(s[p + 1]) THEN TokenEnd(s, p + 1) ELSE p
\* <<token, position behind it>>; the delimiter itself is not consumed
\* A position behind the end, or inside a character: there is no text there.
Outside(s, p) == p > Len(s) \/ (p < Len(s) /\ s[p + 1] >= 128 /\ s[p + 1] < 192)
ParseWord(s, p) ==
  IF p >= Len(s) \/ Outside(s, p) THEN << <<>>, p >>
  ELSE LET b == SkipBlanks(s, p)
           e == TokenEnd(s, b)
       IN <<SubSeq(s, b + 1, e), e>>

\* ----- UTF-8: characters of a byte sequence -----
CharLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
CodeAt(s, p) ==  \* code point starting at byte offset p
  LET b == s[p + 1]
  IN CASE CharLen(b) = 1 -> b
       [] CharLen(b) = 2 -> (b % 32) * 64 + (s[p + 2] % 64)
       [] CharLen(b) = 3 -> (b % 16) * 4096 + (s[p + 2] % 64) * 64 + (s[p + 3] % 64)
       [] OTHER -> (b % 8) * 262144 + (s[p + 2] % 64) * 4096 + (s[p + 3] % 64) * 64 + (s[p + 4] % 64)
\* UTF-8 encoding of a code point below 256 (what emit can produce)
Enc256(c) == IF c < 128 THEN <<c>> ELSE <<192 + c \div 64, 128 + (c % 64)>>

\* Position of the first character equal to code point d at or behind p, or -1.
RECURSIVE FindChar(_, _, _)
FindChar(s, p, d) ==
  IF p >= Len(s) THEN -1
  ELSE IF CodeAt(s, p) = d THEN p ELSE FindChar(s, p + CharLen(s[p + 1]), d)
\* <<text before the delimiter, position behind the delimiter>>
ParseDelim(s, p, d) ==
  LET q == FindChar(s, p, d)
  IN IF Outside(s, p) THEN << <<>>, p >>
     ELSE IF q < 0 THEN <<SubSeq(s, p + 1, Len(s)), Len(s)>>
     ELSE <<SubSeq(s, p + 1, q), q + CharLen(s[q + 1])>>
RECURSIVE SkipChar(_, _, _)
SkipChar(s, p, d) ==
  IF ~Outside(s, p) /\ p < Len(s) /\ CodeAt(s, p) = d THEN SkipChar(s, p + CharLen(s[p + 1]), d) ELSE p

\* ----- number syntax -----
DigitOf(b) == CASE b >= 48 /\ b <= 57  -> b - 48
                [] b >= 97 /\ b <= 102 -> b - 87
                [] b >= 65 /\ b <= 70  -> b - 55
                [] OTHER -> 99
\* c * m + d for small m, d (unsigned, wrapping)
RECURSIVE MulAddR(_, _, _, _, _)
MulAddR(c, m, i, k, acc) ==
  IF i > NL THEN acc
  ELSE LET s == c[i] * m + k
       IN MulAddR(c, m, i + 1, s \div LimbBase, Append(acc, s % LimbBase))
MulAdd(c, m, d) == MulAddR(c, m, 1, d, <<>>)
RECURSIVE DigitsR(_, _, _, _)
\* value of the digits s[p+1..], or <<>> if one is not a digit of the base
DigitsR(s, p, base, c) ==
  IF p >= Len(s) THEN c
  ELSE IF DigitOf(s[p + 1]) < base THEN DigitsR(s, p + 1, base, MulAdd(c, base, DigitOf(s[p + 1])))
       ELSE <<>>

PrefixBase(b) == CASE b = 37 -> 2 [] b = 35 -> 10 [] b = 36 -> 16 [] OTHER -> 0
\* A token read as an integer: the cell, or <<>> if it is none.
IntegerOf(s, base) ==
  IF Len(s) = 3 /\ s[1] = 39 /\ s[3] = 39 THEN FromInt(s[2])
  ELSE IF Len(s) = 0 THEN <<>>
  ELSE LET pb == PrefixBase(s[1])
           p1 == IF pb > 0 THEN 1 ELSE 0
           bs == IF pb > 0 THEN pb ELSE base
           ng == p1 < Len(s) /\ s[p1 + 1] = 45
           p2 == IF p1 < Len(s) /\ s[p1 + 1] \in {43, 45} THEN p1 + 1 ELSE p1
       IN IF p2 >= Len(s) THEN <<>>       \* at least one digit
          ELSE LET c == DigitsR(s, p2, bs, Zero)
               IN IF c = <<>> THEN <<>> ELSE IF ng THEN Neg(c) ELSE c

RECURSIVE DecEnd(_, _)
DecEnd(s, p) == IF p < Len(s) /\ s[p + 1] >= 48 /\ s[p + 1] <= 57 THEN DecEnd(s, p + 1) ELSE p
\* Syntax of a floating-point literal: [sign] digits [. digits] (E|e) [sign] digits*
\* Result: [ok, neg, int, frac, eneg, exp] with the digit strings.
FloatSyntax(s) ==
  LET ng == Len(s) > 0 /\ s[1] = 45
      p1 == IF Len(s) > 0 /\ s[1] \in {43, 45} THEN 1 ELSE 0
      p2 == DecEnd(s, p1)
      dot == p2 < Len(s) /\ s[p2 + 1] = 46
      p3 == IF dot THEN DecEnd(s, p2 + 1) ELSE p2
      isE == p3 < Len(s) /\ s[p3 + 1] \in {69, 101}
      en == isE /\ p3 + 1 < Len(s) /\ s[p3 + 2] = 45
      p4 == IF isE /\ p3 + 1 < Len(s) /\ s[p3 + 2] \in {43, 45} THEN p3 + 2 ELSE p3 + 1
      p5 == DecEnd(s, p4)
  IN [ok |-> p2 > p1 /\ isE /\ p5 = Len(s), neg |-> ng,
      int |-> SubSeq(s, p1 + 1, p2),
      frac |-> IF dot THEN SubSeq(s, p2 + 2, p3) ELSE <<>>,
      eneg |-> en, exp |-> SubSeq(s, p4 + 1, p5)]
RECURSIVE DecValR(_, _, _)
DecValR(s, i, n) == IF i > Len(s) THEN n ELSE DecValR(s, i + 1, 10 * n + (s[i] - 48))
\* value of at most 9 decimal digits
DecVal(s) == DecValR(s, 1, 0)

\* ----- numerals -----
DigitChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d     \* upper case
RECURSIVE NumeralR(_, _, _)
NumeralR(c, m, acc) ==
  LET d == DivSmall(c, m)
      a == <<DigitChar(d[2])>> \o acc
  IN IF d[1] = Zero THEN a ELSE NumeralR(d[1], m, a)
UNumeral(c, m) == NumeralR(c, m, <<>>)
\* signed in base ten, the raw bits in the other bases
Numeral(c, base) ==
  IF base = 10 /\ IsNeg(c) THEN <<45>> \o UNumeral(Neg(c), 10) ELSE UNumeral(c, base)
Blanks(n) == Rep(32, IF n < 0 THEN 0 ELSE n)
PadLeft(s, n) == Blanks(n - Len(s)) \o s
=============================================================================
