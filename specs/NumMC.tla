-------------------------------- MODULE NumMC -------------------------------
(***************************************************************************)
(* Numbers.  "tokens": every string over an alphabet, in every base: which *)
(* are numbers, and which, is said by a grammar (existence of a split) and *)
(* ordinary integers.  "print": a printed number is canonical, as wide as  *)
(* asked, and read back to the same cell.                                  *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE, ALPHA, MAXLEN
VARIABLES NTOK, NBM
Bases == {2, 8, 10, 16}
AtBase(b) == Feed(Boot, S2B(ToString(b) \o " base !"))
Machines == [b \in Bases |-> AtBase(b)]

Val(d) == IF d \in 48..57 THEN d - 48 ELSE IF d \in 97..102 THEN d - 87 ELSE IF d \in 65..70 THEN d - 55 ELSE 99
Dec(s) == \A i \in 1..Len(s) : s[i] \in 48..57
Cut(s, i, j) == SubSeq(s, i, j)
RECURSIVE Value(_, _, _)
Value(s, i, b) == IF i = 0 THEN 0 ELSE Value(s, i - 1, b) * b + Val(s[i])
\* all readings as an integer
Readings(s, base) ==
  {r \in {LET p == IF s[1] \in {36, 35, 37} THEN 1 ELSE 0
              b == IF p = 0 THEN base ELSE IF s[1] = 36 THEN 16 ELSE IF s[1] = 35 THEN 10 ELSE 2
              q == IF Len(s) > p /\ s[p + 1] \in {43, 45} THEN 1 ELSE 0
              d == Cut(s, p + q + 1, Len(s))
          IN IF d # <<>> /\ \A i \in 1..Len(d) : Val(d[i]) < b
             THEN <<(IF q = 1 /\ s[p + 1] = 45 THEN -1 ELSE 1) * Value(d, Len(d), b)>>
             ELSE <<>>} : r # <<>>}
  \cup (IF Len(s) = 3 /\ s[1] = 39 /\ s[3] = 39 THEN {<<s[2]>>} ELSE {})
IsFloat(s) ==
  \E i \in 0..1, j \in 1..Len(s) : \E k \in j..Len(s) :
    /\ i < j /\ (i = 1 => s[1] \in {43, 45})
    /\ Cut(s, i + 1, j) # <<>> /\ Dec(Cut(s, i + 1, j))                     \* digits
    /\ (k = j \/ (s[j + 1] = 46 /\ Dec(Cut(s, j + 2, k))))                 \* . digits
    /\ k < Len(s) /\ s[k + 1] \in {69, 101}                                \* E
    /\ LET x == Cut(s, k + 2, Len(s))
       IN x = <<>> \/ Dec(x) \/ (x[1] \in {43, 45} /\ Dec(Cut(x, 2, Len(x))))

Cells == {FromInt(x) : x \in {0, 1, 7, 8, 9, 10, 15, 16, 255, 256, 1000, 65535, 2147483647, -1, -2, -10, -16, -255, -2147483647}}
         \cup {MinC, MaxC, Shl(One, 32), Shl(One, 62), Shl(FromInt(10), 40), Neg(Shl(FromInt(3), 50))}
Widths == {0, 1, 2, 3, 5, 10, 19, 20, 21, 64, 65, 70}
Init == /\ NTOK = <<>> /\ NBM = Machines
Next == /\ NBM' = NBM
        /\ IF SHAPE = "tokens" THEN Len(NTOK) < MAXLEN /\ \E c \in ALPHA : NTOK' = Append(NTOK, c)
           ELSE NTOK = <<>> /\ \E c \in Cells, w \in Widths : NTOK' = <<c, w>>
View == NTOK
IsWord(s) == Find(NBM[10], s) >= 0
Tokens ==
  (SHAPE = "tokens" /\ NTOK # <<>> /\ ~IsWord(NTOK)) =>
  /\ \A b \in Bases :
       LET m == Feed(NBM[b], NTOK)
           r == Readings(NTOK, b)
       IN /\ Cardinality(r) <= 1
          /\ m.bad = ""
          /\ IF r # {} THEN m.err = 0 /\ m.fs.n = 0 /\ Entries(m.ds) = <<FromInt((CHOOSE x \in r : TRUE)[1])>>
             ELSE IF IsFloat(NTOK) THEN m.err = 0 /\ m.fs.n = 1 /\ m.ds.n = 0
             ELSE m.err = E_UNDEF /\ m.fs.n = 0 /\ m.ds.n = 0
  /\ PrintT(<<"SCRIPT", NTOK>>)
Digits(s) == SelectSeq(s, LAMBDA x : x # 32)
Printed ==
  (SHAPE = "print" /\ NTOK # <<>>) =>
  \A b \in Bases :
    LET m0 == [NBM[b] EXCEPT !.ds = Psh(Psh(NBM[b].ds, NTOK[1]), FromInt(NTOK[2]))]
        m == Feed(m0, S2B(".r"))
        d == Digits(m.out)
        r == Feed(NBM[b], m.out)
    IN /\ m.err = 0 /\ m.ds.n = 0
       \* as wide as asked, blanks in front
       /\ Len(m.out) = IF Len(d) > NTOK[2] THEN Len(d) ELSE NTOK[2]
       /\ \A i \in 1..Len(m.out) : (i <= Len(m.out) - Len(d)) <=> (m.out[i] = 32)
       \* canonical, and the same number
       /\ Len(d) > 1 => d[1] # 48 /\ ~(d[1] = 45 /\ d[2] = 48)
       /\ b # 10 => d[1] # 45
       /\ r.err = 0 /\ Entries(r.ds) = <<NTOK[1]>>
Emitted == (SHAPE = "print" /\ NTOK # <<>>) => PrintT(<<"SCRIPT", NTOK>>)
=============================================================================
