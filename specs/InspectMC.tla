------------------------------- MODULE InspectMC -------------------------------
(***************************************************************************)
(* Inspection words.  All histories of pushing, defining, redefining,      *)
(* failing, timing and removing; after every one of them every inspection  *)
(* word prints what the reference (plain lists of numbers and names) says, *)
(* and the machine afterwards differs from the machine before in nothing   *)
(* but its output and the documented stack effect.                         *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, OPS
VARIABLES IQ,      \* operations done
          IL,      \* lines fed
          IM,      \* the machine
          IREF,    \* the reference
          IXX,     \* an operation went wrong
          ISYS     \* what words prints for the system's own words
\* reference: data and float stack (floats as text), words (oldest first), base,
\* code of the pending exception, last token
Word_(n) == [n |-> n, lo |-> 0, hi |-> 0, shown |-> TRUE, saved |-> FALSE]
Ref0 == [d |-> <<>>, f |-> <<>>, w |-> <<Word_("bt"), Word_("bu"), Word_("bv"), Word_("tw")>>, err |-> 0]
RECURSIVE SysText(_, _)
SysText(i, acc) == IF i = 1 THEN acc ELSE SysText(i - 1, acc \o BaseWords[i].b \o <<32>>)
Base0 == FeedAll(Boot, <<": bt .backtrace ; : bu bt ; : bv 3 bu drop ;", ": tw 0 ?do tick loop ;">>, 1)
Init == IQ = <<>> /\ IL = <<>> /\ IM = Base0 /\ IREF = Ref0 /\ IXX = "" /\ ISYS = SysText(Len(BaseWords), <<>>)
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i
NewestTw == MaxOf({i \in 1..Len(IREF.w) : IREF.w[i].n = "tw"})
Markers == {i \in 1..Len(IREF.w) : IREF.w[i].saved}
\* the line of an operation, the reference after it
Nw(r, n) == [r EXCEPT !.w = Append(r.w, Word_(n))]
Timed(r, us) == LET i == NewestTw w == r.w[i]
                IN [r EXCEPT !.w[i].lo = IF w.lo = 0 \/ us < w.lo THEN us ELSE w.lo,
                             !.w[i].hi = IF us > w.hi THEN us ELSE w.hi]
Cleared(r, e) == [r EXCEPT !.d = <<>>, !.f = <<>>, !.err = e]
OpLine(o) ==
  LET i == ToString(Len(IQ))
  IN CASE o = "push" -> "-7 " \o i [] o = "drop" -> "drop" [] o = "float" -> "-1.5e"
       [] o = "colon" -> ": c" \o i \o " 1 ;" [] o = "create" -> "create d" \o i \o " 5 ,"
       [] o = "again" -> ": tw 0 ?do tick loop ;"
       [] o = "time1" -> "1 utime ' tw xtime" [] o = "time3" -> "3 utime ' tw xtime" [] o = "clear" -> "0xtime"
       [] o = "marker" -> "marker m" \o i
       [] o = "unmark" -> IREF.w[MaxOf(Markers)].n
       [] o = "hidden" -> ": h" \o i \o " nosuch"
       [] o = "zero" -> "1 0 /"
       [] o = "hex" -> "hex" [] OTHER -> "nosuch"
OpRef(o) ==
  LET r == IREF i == Len(IQ) n == ToString(i)
  IN CASE o = "push" -> [r EXCEPT !.d = r.d \o <<-7, i>>]
       [] o = "drop" -> [r EXCEPT !.d = SubSeq(r.d, 1, Len(r.d) - 1)]
       [] o = "float" -> [r EXCEPT !.f = Append(r.f, "-1.5000000")]
       [] o = "colon" -> Nw(r, "c" \o n) [] o = "create" -> Nw(r, "d" \o n) [] o = "again" -> Nw(r, "tw")
       [] o = "time1" -> Timed(r, 1000) [] o = "time3" -> Timed(r, 3000)
       [] o = "clear" -> [r EXCEPT !.w = [k \in 1..Len(r.w) |-> [r.w[k] EXCEPT !.lo = 0, !.hi = 0]]]
       [] o = "marker" -> [r EXCEPT !.w = Append(r.w, [Word_("m" \o n) EXCEPT !.saved = TRUE])]
       [] o = "unmark" -> [r EXCEPT !.w = SubSeq(r.w, 1, MaxOf(Markers) - 1)]
       [] o = "hidden" -> [Cleared(r, -13) EXCEPT !.w = Append(r.w, [Word_("h" \o n) EXCEPT !.shown = FALSE])]
       [] o = "zero" -> Cleared(r, -10)
       [] o = "hex" -> r
       [] OTHER -> Cleared(r, -13)
CanDo(o) == CASE o = "drop" -> IREF.d # <<>> [] o = "unmark" -> Markers # {} [] OTHER -> TRUE
Next ==
  /\ Len(IQ) < MAXLEN /\ IXX = ""
  /\ \E o \in OPS :
       /\ CanDo(o)
       /\ LET l == OpLine(o)
              m == Feed(IM, S2B(l))
              r == OpRef(o)
          IN /\ IQ' = Append(IQ, o)
             /\ IREF' = [r EXCEPT !.err = 0]
             /\ IL' = (IF r.err = 0 THEN Append(IL, l)
                       ELSE IL \o <<l, IF o = "hidden" THEN "1" ELSE IF IREF.d = <<>> THEN ".error" ELSE "error", "!reset", "!clear">>)
             /\ IM' = IF r.err = 0 THEN m ELSE Recover(m)
             /\ IXX' = IF m.bad # "" THEN m.bad
                       ELSE IF m.err # r.err THEN "wrong exception"
                       ELSE IF r.err = 0 \/ o = "hidden" THEN ""
                       \* the pending exception is reported, and stays pending
                       ELSE LET a == Feed(m, S2B(".error")) b == Feed(m, S2B(" error ")) c == Feed(m, S2B(".token"))
                            IN IF a.out # S2B(IF r.err = -13 THEN "Undefined word" ELSE "Division by zero") THEN ".error"
                               ELSE IF Entries(b.ds) # <<FromInt(r.err)>> THEN "error"
                               ELSE IF c.out # S2B(".token") THEN ".token"
                               ELSE IF a.err # r.err \/ b.err # r.err THEN "exception lost" ELSE ""
  /\ UNCHANGED ISYS
View == IQ
NoError == IXX = ""
\* ----- what the inspection words print -----
RECURSIVE Cat(_, _, _), CatN(_, _, _)
Cat(xs, i, acc) == IF i > Len(xs) THEN acc ELSE Cat(xs, i + 1, acc \o S2B(xs[i]) \o <<32>>)
CatN(xs, i, acc) == IF i > Len(xs) THEN acc ELSE CatN(xs, i + 1, acc \o S2B(ToString(xs[i])) \o <<32>>)
StackText == CatN(IREF.d, 1, <<>>)
             \o (IF IREF.f = <<>> THEN <<>> ELSE (IF IREF.d = <<>> THEN <<>> ELSE <<32>>) \o S2B("F: ") \o Cat(IREF.f, 1, <<>>))
RECURSIVE UserText(_, _), TimeText(_, _)
UserText(i, acc) == IF i = 0 THEN acc ELSE UserText(i - 1, IF IREF.w[i].shown THEN acc \o S2B(IREF.w[i].n) \o <<32>> ELSE acc)
TimeText(i, acc) ==
  IF i = 0 THEN acc
  ELSE LET w == IREF.w[i]
       IN TimeText(i - 1, IF w.lo = 0 THEN acc
                          ELSE acc \o (IF acc = <<>> THEN <<>> ELSE S2B("|"))
                               \o S2B(w.n) \o S2B("|" \o ToString(w.lo) \o "," \o ToString(w.hi)))
Last_ == LET r == IREF.w[MaxOf({i \in 1..Len(IREF.w) : IREF.w[i].shown})] IN r.n
\* <<line, text, what it leaves on the data stack>>; text <<-5>>: words
Keep(xs) == [i \in 1..Len(xs) |-> FromInt(xs[i])]
Looks ==
  << <<S2B(".s"), StackText, <<>> >>,
     <<S2B("depth"), <<>>, <<FromInt(Len(IREF.d))>> >>,
     <<S2B("words"), UserText(Len(IREF.w), <<>>) \o ISYS, <<>> >>,
     <<S2B(".xtime"), TimeText(Len(IREF.w), <<>>), <<>> >>,
     <<S2B("' " \o Last_ \o " .word"), S2B(Last_ \o " "), <<>> >>,
     <<S2B("' " \o Last_ \o " >name dup cell+ swap @ type"), S2B(Last_), <<>> >>,
     <<S2B("-1 .word"), S2B("unknown "), <<>> >>,
     <<S2B("  me"), <<>>, <<FromInt(1)>> >>,
     <<S2B("  source-idx"), <<>>, <<FromInt(12)>> >>,
     <<S2B("source-id .error error"), <<>>, <<Zero, Zero>> >>,
     <<S2B("  .token"), S2B(".token"), <<>> >>,
     <<S2B("  .input "), S2B("  .input "), <<>> >>,
     <<S2B(".backtrace"), S2B("backtrace: unknown(0) "), <<>> >>,
     <<S2B("bv"), S2B("backtrace: unknown(0) bv bu bt "), <<>> >> >>
Frame(m) == <<m.fs, m.cs, m.rs.n, m.here, m.mem, m.xm, m.dict, m.last, m.err, m.comp, m.cur, m.awake, m.now, m.handler, m.sid, m.t>>
LookOk(l) ==
  LET m == Feed(IM, l[1])
  IN /\ m.bad = "" /\ m.out = l[2]
     /\ Entries(m.ds) = Keep(IREF.d) \o l[3]
     /\ Frame(m) = Frame(IM)
Shown == IXX # "" \/ \A k \in 1..Len(Looks) : (LookOk(Looks[k]) \/ (PrintT(<<"WRONG", Looks[k][1], Looks[k][2], Feed(IM, Looks[k][1]).out>>) /\ FALSE))
\* >body of a created word is the address the word delivers
Bodies == \A i \in 1..Len(IREF.w) :
            LET w == IREF.w[i]
                m == Feed(Recover(IM), S2B(w.n))
                b == Feed(Recover(IM), S2B("' " \o w.n \o " >body"))
            IN (IXX = "" /\ i > 4 /\ i = Len(IREF.w) /\ IQ[Len(IQ)] = "create") => Entries(m.ds) = Entries(b.ds) /\ Len(Entries(m.ds)) = 1
LookLines == <<".s", "depth", "drop", "words", ".xtime", "' " \o Last_ \o " .word", "' " \o Last_ \o " >name dup cell+ swap @ type", "-1 .word",
               "  me drop", "  source-idx drop", "source-id .error error 2drop", "  .token", "  .input ", ".backtrace", "bv", ".s">>
Emitted == Len(IQ) = MAXLEN => PrintT(<<"SCRIPT", IL, LookLines>>)
=============================================================================
