-------------------------------- MODULE MemMC --------------------------------
(***************************************************************************)
(* Memory.  Three shapes of histories:                                     *)
(*  "hist"  stores, moves and fills, overlapping in every way, in a buffer *)
(*          whose reference is a plain sequence of bytes;                  *)
(*  "addr"  every memory word at every class of address and length, the    *)
(*          reference being whether the range lies in the data space;      *)
(*  "ptr"   here, allot, align and the comma words, the reference being    *)
(*          the sequence of bytes appended so far.                         *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE, MAXLEN, FROMS, SIZES
VARIABLES WSEQ,      \* the lines fed
          WREF,      \* the reference
          WM,        \* the machine
          WE         \* what went wrong
NBUF == 24
T(n) == ToString(n)
At(o) == "b " \o T(o) \o " + "

-----------------------------------------------------------------------------
VAL == <<136, 119, 102, 85, 68, 51, 34, 17>>                    \* $1122334455667788
VAL2 == <<24, 23, 22, 21, 20, 19, 18, 145>>                     \* $9112131415161718
PutB(s, o, bs) == Force([i \in 1..Len(s) |-> IF i > o /\ i <= o + Len(bs) THEN bs[i - o] ELSE s[i]])
CellB(s, o) == SubSeq(s, o + 1, o + 8)
HistOps ==
  {<<"c!", o, 0, 0>> : o \in {0, 5, 8, 23}} \cup {<<"!", o, 0, 0>> : o \in {0, 3, 8, 16}}
  \cup {<<"+!", o, 0, 0>> : o \in {8, 11}} \cup {<<"2!", o, 0, 0>> : o \in {0, 8, 5}} \cup {<<"on", 0, 0, 0>>, <<"off", 13, 0, 0>>}
  \cup {<<"fill", o, n, 0>> : o \in {0, 7}, n \in {0, 1, 9, 17}}
  \cup {<<"f!", o, 0, 0>> : o \in {0, 8}}
  \cup {<<"move", s, d, n>> : s \in FROMS, d \in FROMS, n \in SIZES}
HistLine(o) ==
  CASE o[1] = "c!" -> "459 " \o At(o[2]) \o "c!"                            \* 459 = 203 + 256
    [] o[1] = "!" -> "$1122334455667788 " \o At(o[2]) \o "!"
    [] o[1] = "+!" -> "$1122334455667788 " \o At(o[2]) \o "+!"
    [] o[1] = "2!" -> "$9112131415161718 $1122334455667788 " \o At(o[2]) \o "2!"
    [] o[1] \in {"on", "off"} -> At(o[2]) \o o[1]
    [] o[1] = "fill" -> At(o[2]) \o T(o[3]) \o " 205 fill"
    [] o[1] = "f!" -> "2.5e " \o At(o[2]) \o "f!"
    [] OTHER -> At(o[2]) \o At(o[3]) \o T(o[4]) \o " move"
HistRef(o, s) ==
  CASE o[1] = "c!" -> PutB(s, o[2], <<203>>)
    [] o[1] = "!" -> PutB(s, o[2], VAL)
    [] o[1] = "+!" -> PutB(s, o[2], Add(CellB(s, o[2]), VAL))
    [] o[1] = "2!" -> PutB(s, o[2], VAL \o VAL2)
    [] o[1] = "on" -> PutB(s, o[2], Ones)
    [] o[1] = "off" -> PutB(s, o[2], Zero)
    [] o[1] = "fill" -> PutB(s, o[2], Rep(205, o[3]))
    [] o[1] = "f!" -> PutB(s, o[2], FAdd(FInt(2), FEnc(0, 1, -1)))
    [] OTHER -> PutB(s, o[3], SubSeq(s, o[2] + 1, o[2] + o[4]))
HistLook == "b @ b 8 + @ b 16 + @ b 3 + @ b 5 + c@ b 8 + 2@ b 22 + count"
HistSeen(s) == <<CellB(s, 0), CellB(s, 8), CellB(s, 16), CellB(s, 3), FromInt(s[6]), CellB(s, 16), CellB(s, 8)>>
Buf0 == FeedAll(Boot, <<"create b 1 c, 2 c, 3 c, 4 c, 5 c, 6 c, 7 c, 8 c, 9 c, 10 c, 11 c, 12 c, 13 c, 14 c, 15 c, 16 c, 17 c, 18 c, 19 c, 20 c, 21 c, 22 c, 23 c, 24 c, 99 constant g">>, 1)

-----------------------------------------------------------------------------
\* classes of addresses: <<class, offset in data space or -1 (outside), text>>
Rel(o) == <<"in", o, "base 8 - " \o T(o) \o " + ">>
Out(t) == <<"out", -1, t \o " ">>
Below == Out("base 9 -")
Addrs == {Rel(o) : o \in {1, 7, 16, H0 + 17, H0 + 24, DSCap - 17, DSCap - 16, DSCap - 15, DSCap - 9, DSCap - 8, DSCap - 7, DSCap - 1}}
         \cup {Out("base 8 - " \o T(DSCap) \o " + " \o x) : x \in {"", "1+", "8 +"}}
         \cup {Below, Out("0"), Out("1"), Out("8"), Out("-1"), Out("-8"), Out("max-n"), Out("max-n 1+"),
               Out("base $100000000 +"), Out("base max-n 1+ +"), Out("base negate")}
\* the part that can be written without damage to the system
User == {a \in Addrs : a[2] < 0 \/ a[2] >= H0}
\* lengths: <<number or -1 (more than the data space), "neg" / "pos", text>>
Lens == {<<n, T(n) \o " ">> : n \in {0, 1, 8, 9, 16}} \cup {<<-1, t \o " ">> : t \in {T(DSCap + 1), "$100000000", "max-n"}}
        \cup {<<-2, t \o " ">> : t \in {"-1", "max-n 1+"}}
\* size of the access of a word without a length
Sz == [w \in {"@", "c@", "!", "c!", "2@", "2!", "+!", "count", "on", "off"} |->
        CASE w \in {"c@", "c!", "count"} -> 1 [] w \in {"2@", "2!"} -> 16 [] OTHER -> 8]
Pre == [w \in DOMAIN Sz |-> CASE w \in {"!", "c!", "+!"} -> "77 " [] w = "2!" -> "77 78 " [] OTHER -> ""]
In(a, n) == a[2] >= 0 /\ a[2] + n <= DSCap
\* <<line, raises an exception?, changes memory?>>
One_(w, a) == <<Pre[w] \o a[3] \o w, ~In(a, Sz[w]), In(a, IF w = "2!" THEN 8 ELSE 1) /\ w \notin {"@", "c@", "2@", "count"}>>
Float(w, a) ==      \* at the next aligned address
  LET al == IF a[2] < 0 THEN a ELSE <<a[1], AlignUp(a[2]), a[3]>>
  IN <<"1e " \o a[3] \o w, ~In(al, 8), w = "f!" /\ In(al, 8)>>
MoveF(a, n) == <<a[3] \o "b " \o n[2] \o "move", n[1] = -1 \/ (n[1] > 0 /\ ~In(a, n[1])), n[1] > 0 /\ In(a, n[1])>>
MoveT(a, n) == <<"b " \o a[3] \o n[2] \o "move", n[1] = -1 \/ (n[1] > 0 /\ ~In(a, n[1])), n[1] > 0 /\ In(a, n[1])>>
TypeF(a, n) == <<a[3] \o n[2] \o "type", n[1] < 0 \/ (n[1] > 0 /\ ~In(a, n[1])), FALSE>>
Reads == {"@", "c@", "2@", "count"}
AddrCases == {One_(w, a) : w \in DOMAIN Sz, a \in User} \cup {One_(w, a) : w \in Reads, a \in Addrs}
             \cup {Float(w, a) : w \in {"f@", "f!"}, a \in {x \in User : x # Below}} \cup {Float("f@", a) : a \in Addrs \ {Below}}
             \cup {MoveF(a, n) : a \in Addrs, n \in Lens} \cup {MoveT(a, n) : a \in User, n \in Lens}
             \cup {TypeF(a, n) : a \in Addrs, n \in Lens}
             \* each of fill's single stores is an access of its own
             \cup {<<a[3] \o n[2] \o "65 fill", n[1] = -1 \/ (n[1] > 0 /\ ~In(a, n[1])), In(a, 1)>> :
                     a \in {x \in Addrs : x[2] < 0 \/ x[2] > DSCap - 2000}, n \in Lens}

-----------------------------------------------------------------------------
\* <<line, bytes appended (-1: any)>>; a negative number of bytes is taken back
PtrOps == {"c,", ",", "2,", "1a", "7a", "-1a", "-8a", "align", "-9a"}
PtrLine(o) ==
  CASE o = "c," -> "203 c," [] o = "," -> "$1122334455667788 ," [] o = "2," -> "$9112131415161718 $1122334455667788 2,"
    [] o = "1a" -> "1 allot" [] o = "7a" -> "7 allot" [] o = "-1a" -> "-1 allot" [] o = "-8a" -> "-8 allot"
    [] o = "-9a" -> "3 allot -12 allot" [] OTHER -> "align"
Back(s, n) == SubSeq(s, 1, Len(s) - n)
PtrRef(o, s) ==
  CASE o = "c," -> Append(s, 203) [] o = "," -> s \o VAL [] o = "2," -> s \o VAL \o VAL2
    [] o = "1a" -> Append(s, -1) [] o = "7a" -> s \o Rep(-1, 7) [] o = "-1a" -> Back(s, 1) [] o = "-8a" -> Back(s, 8)
    [] o = "-9a" -> Back(s, 9)
    [] OTHER -> s \o Rep(-1, (8 - (Len(s) % 8)) % 8)
PtrNeeds(o) == CASE o = "-1a" -> 1 [] o = "-8a" -> 8 [] o = "-9a" -> 9 [] OTHER -> 0
Ptr0 == FeedAll(Boot, <<"create b">>, 1)

-----------------------------------------------------------------------------
Init == /\ WSEQ = <<>>
        /\ WREF = IF SHAPE = "hist" THEN [i \in 1..NBUF |-> i] ELSE <<>>
        /\ WM = IF SHAPE = "ptr" THEN Ptr0 ELSE Buf0
        /\ WE = ""
Judge(m, fails, ok) ==
  IF m.bad # "" THEN m.bad
  ELSE IF m.err # (IF fails THEN E_ADDR ELSE 0) THEN "exception"
  ELSE IF ok THEN "" ELSE "effect"
Next ==
  /\ Len(WSEQ) < MAXLEN
  /\ WE = ""
  /\ CASE SHAPE = "hist" ->
            \E o \in HistOps :
               LET m == Feed(WM, S2B(HistLine(o)))
                   r == HistRef(o, WREF)
               IN /\ WSEQ' = Append(WSEQ, HistLine(o))
                  /\ WREF' = r /\ WM' = Recover(m)
                  /\ WE' = Judge(m, FALSE, Bytes(m, DfaOf(m, NB), NBUF) = r /\ Entries(m.ds) = <<>> /\ m.here = WM.here)
       [] SHAPE = "addr" ->
            \E c \in AddrCases :
               LET m == Feed(WM, S2B(c[1]))
               IN /\ WSEQ' = Append(WSEQ, c[1])
                  /\ WREF' = <<>> /\ WM' = Recover(m)
                  /\ WE' = Judge(m, c[2], (m.mem # WM.mem \/ m.xm # WM.xm) => c[3])
       [] OTHER ->
            \E o \in {x \in PtrOps : PtrNeeds(x) <= Len(WREF)} :
               LET m == Feed(WM, S2B(PtrLine(o)))
                   r == PtrRef(o, WREF)
                   b == DfaOf(m, NB)
                   mem == Bytes(m, b, Len(r))
               IN /\ WSEQ' = Append(WSEQ, PtrLine(o))
                  /\ WREF' = r /\ WM' = Recover(m)
                  /\ WE' = Judge(m, FALSE, m.here = b + Len(r) /\ \A i \in 1..Len(r) : r[i] = -1 \/ mem[i] = r[i])
View == WSEQ
AsWritten == WE = ""
\* the words read what the reference holds
ReadBack ==
  SHAPE = "hist" =>
    LET m == Feed(WM, S2B(HistLook))
        e == Entries(m.ds)
    IN m.err = 0 /\ m.bad = "" /\ e = HistSeen(WREF) \o <<AddrC(m, DfaOf(m, NB) + 23), FromInt(WREF[23])>>
Emitted == Len(WSEQ) = MAXLEN => PrintT(<<"SCRIPT", WSEQ>>)
=============================================================================
