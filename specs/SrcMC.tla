-------------------------------- MODULE SrcMC --------------------------------
(***************************************************************************)
(* Source files.                                                           *)
(*  "text"    all files of up to MAXLEN lines, with every kind of line     *)
(*            end, including a second file of every kind: the reference    *)
(*            inserts their lines in the place of the include;             *)
(*  "hist"    all histories of good and failing includes: each behaves as  *)
(*            if it were the first;                                        *)
(*  "direct"  all histories of opening, reading and closing sources, the   *)
(*            reference being a list of lines and a cursor for each.       *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE, MAXLEN, EVERY
VARIABLES USEQ,      \* the lines of the file, or the lines fed
          UG,        \* the second file; the reference
          UM,        \* the machine
          UE         \* what went wrong
LF == <<10>>
CRLF == <<13, 10>>
Kinds == IF ~EVERY THEN {<<k, LF>> : k \in {"n", "e", "i", "d", "c"}} \cup {<<"i", CRLF>>, <<"n", CRLF>>} ELSE
         {<<k, LF>> : k \in {"n", "e", "b", "i", "x", "d", "c", "q", "p"}} \cup {<<k, CRLF>> : k \in {"n", "e", "i"}}
TextOf(k, i) ==
  CASE k = "n" -> S2B(ToString(i) \o " .") [] k = "e" -> <<>> [] k = "b" -> <<32, 9, 32>>
    [] k = "i" -> S2B("5 include g 6 . .") [] k = "x" -> S2B("include nofile 8 .")
    [] k = "d" -> S2B(": x 4") [] k = "c" -> S2B("; x .") [] k = "q" -> S2B("\\ 9 .") [] OTHER -> S2B("3 . ( 7 .")
\* second files: <<content, lines>>, a line being what it prints, or a failure
Gs == << <<<<>>, <<>>>>, <<S2B("7 ."), <<"7 ">>>>, <<S2B("7 .") \o LF \o S2B("8 .") \o LF, <<"7 ", "8 ">>>>,
         <<S2B("7 .") \o CRLF \o LF, <<"7 ", "">>>>, <<LF \o S2B("8 . 7 ."), <<"", "8 7 ">>>>, <<S2B("7 .") \o LF \o S2B("nosuch") \o LF, <<"7 ", "!">>>> >>
NG == Len(Gs)
RECURSIVE FileR(_, _, _)
FileR(ls, i, acc) == IF i > Len(ls) THEN acc ELSE FileR(ls, i + 1, acc \o TextOf(ls[i][1], i) \o ls[i][2])
\* the file, and the file without its last line end
Whole(ls) == FileR(ls, 1, <<>>)
Cut(ls) == IF ls = <<>> THEN <<>> ELSE LET w == Whole(ls) IN SubSeq(w, 1, Len(w) - Len(ls[Len(ls)][2]))
\* a definition begun is completed in one of the next lines
RECURSIVE Fine(_, _, _)
Fine(ls, i, open) ==
  IF i > Len(ls) THEN ~open
  ELSE LET k == ls[i][1]
       IN IF open THEN (k \in {"e", "b", "q"} /\ Fine(ls, i + 1, TRUE)) \/ (k = "c" /\ Fine(ls, i + 1, FALSE))
          ELSE k # "c" /\ Fine(ls, i + 1, k = "d")

\* the reference: [o output since the last flush, f flushed output, e exception]
Say(r, s) == IF r.e # 0 THEN r ELSE [r EXCEPT !.o = r.o \o S2B(s)]
Flush_(r) == IF r.e # 0 \/ r.o = <<>> THEN r ELSE [r EXCEPT !.f = r.f \o r.o \o LF, !.o = <<>>]
RECURSIVE GLines(_, _, _)
GLines(r, ls, i) == IF i > Len(ls) \/ r.e # 0 THEN r
                    ELSE GLines(Flush_(IF ls[i] = "!" THEN [r EXCEPT !.e = E_UNDEF] ELSE Say(r, ls[i])), ls, i + 1)
RECURSIVE FLines(_, _, _, _)
FLines(r, ls, i, g) ==
  IF i > Len(ls) \/ r.e # 0 THEN r
  ELSE LET k == ls[i][1]
           x == CASE k = "n" -> Say(r, ToString(i) \o " ")
                  [] k = "i" -> Say(GLines(r, Gs[g][2], 1), "6 5 ")
                  [] k = "x" -> [r EXCEPT !.e = E_ABORT]
                  [] k = "c" -> Say(r, "4 ") [] k = "p" -> Say(r, "3 ") [] OTHER -> r
       IN FLines(Flush_(x), ls, i + 1, g)
TopLine == "9 . include f 10 ."
Ref(ls, g) == LET r == Say([o |-> <<>>, f |-> <<>>, e |-> 0], "9 ")
              IN Say(FLines(r, ls, 1, g), "10 ")
Like(m, r) == m.bad = "" /\ m.err = r.e /\ m.out = r.o /\ m.std = r.f /\ (r.e = 0 => m.sid = 0 /\ m.ds.n = 0 /\ m.rs.n = 0)
Has(ls, k) == \E i \in 1..Len(ls) : ls[i][1] = k
Inserted ==
  SHAPE = "text" /\ Fine(USEQ, 1, FALSE) =>
    \A whole \in BOOLEAN :
      LET c == IF whole THEN Whole(USEQ) ELSE Cut(USEQ)
          \* without its line end an empty line is no line
          ls == IF ~whole /\ USEQ # <<>> /\ USEQ[Len(USEQ)][1] = "e" THEN SubSeq(USEQ, 1, Len(USEQ) - 1) ELSE USEQ
          m0 == PutFile(PutFile(UM, S2B("f"), c), S2B("g"), Gs[UG][1])
          m1 == Feed(m0, S2B(TopLine))
          m2 == Feed(Reset(ClearStacks(m1)), S2B(TopLine))       \* and once more
          r == Ref(ls, UG)
      IN /\ Like(m1, r)
         /\ (Has(USEQ, "d") \/ Like(m2, r))        \* a second definition is announced

-----------------------------------------------------------------------------
Files == << <<"f", S2B("1 . 2 .") \o LF \o S2B("3 .")>>, <<"bad", S2B("1 .") \o LF \o S2B("2 . nosuch 3 .") \o LF>>,
            <<"up", S2B("4 . include bad 5 .") \o LF>>, <<"ok", S2B("6 . include f 7 .") \o CRLF>>, <<"tick", S2B("' abort execute")>> >>
RECURSIVE PutAll(_, _)
PutAll(m, i) == IF i > Len(Files) THEN m ELSE PutAll(PutFile(m, S2B(Files[i][1]), Files[i][2]), i + 1)
\* <<line, exception, flushed output, output>>
Tops == { <<"8 . include f 9 .", 0, S2B("8 1 2 ") \o LF \o S2B("3 ") \o LF, S2B("9 ")>>,
          <<"8 . include bad 9 .", E_UNDEF, S2B("8 1 ") \o LF, S2B("2 ")>>,
          <<"8 . include up 9 .", E_UNDEF, S2B("8 4 1 ") \o LF, S2B("2 ")>>,
          <<"include ok include f", 0, S2B("6 1 2 ") \o LF \o S2B("3 ") \o LF \o S2B("7 ") \o LF \o S2B("1 2 ") \o LF \o S2B("3 ") \o LF, <<>>>>,
          <<"include nofile 9 .", E_ABORT, <<>>, <<>>>>,
          <<"inc 9 .", 0, S2B("8 1 2 ") \o LF \o S2B("3 ") \o LF, S2B("7 9 ")>>,
          <<"incbad 9 .", E_UNDEF, S2B("8 1 ") \o LF, S2B("2 ")>>,
          <<"include tick 9 .", E_ABORT, <<>>, <<>>>>,
          <<"include", E_ABORT, <<>>, <<>>>>,
          <<"1 if", E_COMPONLY, <<>>, <<>>>> }
Hist0 == FeedAll(PutAll(Boot, 1), <<": inc 8 . s\" f\" included 7 . ;", ": incbad 8 . s\" bad\" included 7 . ;">>, 1)

-----------------------------------------------------------------------------
LINES == << S2B("ab c"), S2B("d"), <<>>, S2B("e f") >>
Direct0 == FeedAll(PutFile(Boot, S2B("f"), LINES[1] \o LF \o LINES[2] \o CRLF \o LF \o LINES[4]),
             <<"variable s1 variable s2 : of s\" f\" 2dup r/o open-file drop open-source ;">>, 1)
\* reference: [id in each place, cursor of an open identifier]
DOps == {<<w, k>> : w \in {"open", "load", "close"}, k \in {1, 2}} \cup {<<"sel", 0>>}
S(k) == "s" \o ToString(k)
DLine(o) ==
  CASE o[1] = "open" -> "of dup " \o S(o[2]) \o " !"
    [] o[1] = "load" -> S(o[2]) \o " @ load-line " \o S(o[2]) \o " @ .source-line"
    [] o[1] = "close" -> S(o[2]) \o " @ close-source"
    [] OTHER -> "77 source-id!"
DRef0 == [id |-> <<0, 0>>, cur |-> <<>>]
\* <<reference, exception, stack, output>>; an opened source gets a new identifier
DEff(o, r, m) ==
  LET id == r.id[IF o[2] = 0 THEN 1 ELSE o[2]]
      ok == id \in DOMAIN r.cur
      nid == IF m.ds.n = 1 THEN ToNat(Entries(m.ds)[1]) ELSE 0
      p == r.cur[id]
  IN CASE o[1] = "open" -> IF nid > 0 /\ nid \notin DOMAIN r.cur
                           THEN <<[r EXCEPT !.id[o[2]] = nid, !.cur = (nid :> 0) @@ r.cur], 0, <<FromInt(nid)>>, <<>>>>
                           ELSE <<r, 99, <<>>, <<>>>>
       [] o[1] = "load" -> IF ~ok THEN <<r, E_ARG, <<>>, <<>>>>
                           ELSE IF p = 4 THEN <<r, 0, <<Zero, Zero>>, <<>>>>
                           ELSE <<[r EXCEPT !.cur = (id :> (p + 1)) @@ r.cur], 0, <<FromInt(Len(LINES[p + 1])), Ones>>, LINES[p + 1]>>
       [] o[1] = "close" -> IF ~ok THEN <<r, E_ARG, <<>>, <<>>>>
                            ELSE <<[r EXCEPT !.cur = Force([j \in DOMAIN r.cur \ {id} |-> r.cur[j]])], 0, <<>>, <<>>>>
       [] OTHER -> <<r, E_ARG, <<>>, <<>>>>

-----------------------------------------------------------------------------
Init == /\ USEQ = <<>> /\ UE = ""
        /\ CASE SHAPE = "text" -> UG \in 1..NG /\ UM = Boot
             [] SHAPE = "hist" -> UG = 0 /\ UM = Hist0
             [] OTHER -> UG = DRef0 /\ UM = Direct0
Next ==
  /\ Len(USEQ) < MAXLEN /\ UE = ""
  /\ CASE SHAPE = "text" ->
            /\ UM' = UM /\ UE' = ""
            /\ \E k \in Kinds : USEQ' = Append(USEQ, k) /\ (UG' = UG) /\ (Has(USEQ', "i") \/ UG = 1 \/ Len(USEQ') < MAXLEN)
       [] SHAPE = "hist" ->
            \E t \in Tops : LET m == Feed(UM, S2B(t[1]))
                            IN /\ USEQ' = Append(USEQ, t[1]) /\ UG' = UG /\ UM' = Recover(m)
                               /\ UE' = (IF m.bad # "" THEN m.bad ELSE IF m.err # t[2] THEN "exception"
                                         ELSE IF m.std # t[3] \/ m.out # t[4] THEN "output"
                                         ELSE IF m.err = 0 /\ (m.sid # 0 \/ m.ds.n # 0 \/ m.rs.n # 0) THEN "state" ELSE "")
       [] OTHER ->
            \E o \in DOps : LET m == Feed(UM, S2B(DLine(o)))
                                x == DEff(o, UG, m)
                            IN /\ USEQ' = Append(USEQ, DLine(o)) /\ UG' = x[1] /\ UM' = Recover(m)
                               /\ UE' = (IF m.bad # "" THEN m.bad ELSE IF m.err # x[2] THEN "exception"
                                         ELSE IF Entries(m.ds) # x[3] THEN "stack" ELSE IF m.out # x[4] THEN "output" ELSE "")
View == <<USEQ, IF SHAPE = "text" THEN UG ELSE 0>>
AsWritten == UE = ""
Emitted == IF SHAPE = "text"
           THEN Fine(USEQ, 1, FALSE) /\ (UG = 1 \/ Has(USEQ, "i")) => PrintT(<<"SCRIPT", <<Whole(USEQ), Cut(USEQ)>>, Gs[UG][1]>>)
           ELSE Len(USEQ) = MAXLEN => PrintT(<<"SCRIPT", USEQ>>)
=============================================================================
