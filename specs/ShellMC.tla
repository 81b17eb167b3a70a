------------------------------- MODULE ShellMC -------------------------------
(***************************************************************************)
(* The interactive shell: all sequences of good and failing lines, with a  *)
(* task that counts, fails or quits.  The                                  *)
(* reference knows a stack of numbers, the definition begun, the finished  *)
(* definitions and the files; it answers each line with a text.            *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, LINES_USED, TIMES
VARIABLES USEQ,      \* the lines so far
          UM,        \* the machine, waiting for a line
          UR,        \* the reference
          UE         \* what went wrong
LF == <<10>>
CR == <<13>>
Lines ==
  [two |-> <<"1", "2">>, dots |-> <<".s">>, colon |-> <<":", "c", "5">>, semi |-> <<"7", ";">>, call |-> <<"c", ".s">>,
   undef |-> <<"nosuch", "3">>, div |-> <<"9", "1", "0", "/">>, drop |-> <<"drop">>, abort |-> <<"abort">>, quit |-> <<"4", "quit", "4">>,
   good |-> <<"include", "good", "3">>, bad |-> <<"include", "bad", "3">>, deep |-> <<"include", "deep">>,
   half |-> <<"include", "half">>, nofile |-> <<"include", "nofile", "3">>, void |-> <<"include", "void">>, empty |-> <<>>, if |-> <<"if">>,
   noname |-> <<"8", ":">>, addr |-> <<"-8", "@">>, late |-> <<"3", "drop", "1", "0", "/", "5">>,
   count |-> <<"mk">>, sick |-> <<"b1">>, ends |-> <<"b4", "p">>, pause |-> <<"p", "look", "p">>, resume |-> <<"2", "resume", "p">>, tk |-> <<"include", "tk">>]
\* the words for the task
Words0 == <<": p pause ; variable n : look n @ . 0 n ! ;", ": mk 2 activate begin 1 n +! pause again ;",
            ": b1 2 activate 1 0 / ; : b4 2 activate quit ;">>
FileLines == [good |-> << <<"3", ".s">>, <<"drop">> >>, bad |-> << <<"5">>, <<"6", "nosuch", "7">> >>,
              deep |-> << <<"8", ".s">>, <<"include", "bad">>, <<"9">> >>, half |-> << <<":", "x", "6">> >>,
              void |-> <<>>, tk |-> << <<"b1", "8">>, <<"p", "drop">>, <<"4">> >>]
FileNames == {"good", "bad", "deep", "half", "void", "tk"}
RECURSIVE FileText(_, _, _)
FileText(ls, i, acc) == IF i > Len(ls) THEN acc ELSE FileText(ls, i + 1, acc \o Join(ls[i]) \o LF)
RECURSIVE PutAll(_, _)
PutAll(m, ns) == IF ns = {} THEN m
                 ELSE LET n == CHOOSE x \in ns : TRUE
                      IN PutAll(PutFile(m, S2B(n), FileText(FileLines[n], 1, <<>>)), ns \ {n})

-----------------------------------------------------------------------------
(* The reference. st stack, comp compiling, nm, body the definition begun,  *)
(* cs it has an open structure, defs finished definitions; o output, f      *)
(* flushed output, e "" or the text of an error, x cannot be told; k what   *)
(* the task does next, n its count                                          *)
R0 == [st |-> <<>>, comp |-> FALSE, nm |-> "", body |-> <<>>, cs |-> FALSE, defs |-> <<>>, o |-> <<>>, f |-> <<>>, e |-> "", q |-> "", loc |-> "", x |-> FALSE, k |-> "nod", n |-> 0]
Nums == {"1", "2", "3", "4", "5", "6", "7", "8", "9", "0"}
Say(r, b) == [r EXCEPT !.o = r.o \o b]
Flush_(r) == IF r.o = <<>> THEN r ELSE [r EXCEPT !.f = r.f \o r.o \o LF, !.o = <<>>]
Fault(r, tok, what) == [r EXCEPT !.e = tok \o " " \o what]
RECURSIVE ShowR(_, _, _)
ShowR(st, i, acc) == IF i > Len(st) THEN acc ELSE ShowR(st, i + 1, acc \o S2B(st[i] \o " "))
Drop1(st) == SubSeq(st, 1, Len(st) - 1)
Builtins == {".s", "drop", "/", "abort", "quit", ":", "include", "if", "@", "mk", "b1", "b4", "p", "look", "resume"}
\* the effect of a word, tok being the token of the source text
RECURSIVE Effect(_, _, _), Body(_, _, _, _)
Effect(r, t, tok) ==
  CASE t \in Nums \/ t = "-8" -> [r EXCEPT !.st = Append(r.st, t)]
    [] t = ".s" -> Say(r, ShowR(r.st, 1, <<>>))
    [] t = "drop" -> IF r.st = <<>> THEN Fault(r, tok, "Stack underflow") ELSE [r EXCEPT !.st = Drop1(r.st)]
    [] t = "/" -> Fault(r, tok, "Division by zero")
    [] t = "@" -> Fault(r, tok, "Invalid memory address")
    [] t = "mk" -> [r EXCEPT !.k = "count"]
    [] t = "b1" -> [r EXCEPT !.k = "fault"]
    [] t = "b4" -> [r EXCEPT !.k = "stop"]
    [] t = "resume" -> IF r.st = <<>> \/ r.st[Len(r.st)] # "2" THEN [r EXCEPT !.x = TRUE]
                       ELSE [r EXCEPT !.st = Drop1(r.st), !.k = IF r.k = "asleep" THEN "stop" ELSE r.k]
    [] t = "look" -> [Say(r, S2B(ToString(r.n) \o " ")) EXCEPT !.n = 0]
    [] t = "p" -> CASE r.k = "count" -> [r EXCEPT !.n = r.n + 1]
                    [] r.k = "stop" -> [r EXCEPT !.k = "asleep"]
                    [] r.k = "fault" -> [Flush_(Say(r, S2B(tok \o " Division by zero, backtrace: ") \o <<WILD>> \o CR)) EXCEPT !.k = "asleep"]
                    [] OTHER -> r
    [] t = "abort" -> [r EXCEPT !.q = "abort"]
    [] t = "quit" -> [r EXCEPT !.q = "quit"]
    [] t \in DOMAIN r.defs -> Body(r, r.defs[t], 1, tok)
    [] OTHER -> Fault(r, tok, "Undefined word")
Over(r) == r.e # "" \/ r.q # "" \/ r.x
Body(r, b, i, tok) ==
  IF i > Len(b) \/ Over(r) THEN r
  ELSE LET s == Effect(r, b[i], tok)
       \* the stacks are looked at only between tokens
       IN IF b[i] = "drop" /\ s.e # "" THEN [r EXCEPT !.x = TRUE] ELSE Body(s, b, i + 1, tok)
Knows(r, t) == t \in Nums \cup Builtins \cup DOMAIN r.defs \cup {"-8"}
RECURSIVE Words(_, _, _)
Words(ts, i, acc) == IF i > Len(ts) THEN acc ELSE Words(ts, i + 1, acc \o (IF i = 1 THEN "" ELSE " ") \o ts[i])
RECURSIVE Toks(_, _, _), FLines(_, _, _, _)
FLines(r, n, ls, i) ==
  IF i > Len(ls) \/ r.x THEN r
  ELSE LET s == Toks(r, ls[i], 1)
       IN IF s.x THEN s
          ELSE IF s.e # "" /\ s.loc = "" THEN [s EXCEPT !.loc = " (" \o n \o ":" \o ToString(i) \o ": " \o Words(ls[i], 1, "") \o ")"]
          ELSE IF Over(s) THEN s
          ELSE FLines(Flush_(s), n, ls, i + 1)
Toks(r, ts, i) ==
  IF i > Len(ts) \/ Over(r) THEN r
  ELSE LET t == ts[i]
       IN IF r.comp
          THEN IF t = ";" THEN IF r.cs THEN Fault(r, ";", "Control structure mismatch")
                               ELSE Toks([r EXCEPT !.comp = FALSE, !.defs = (r.nm :> r.body) @@ r.defs], ts, i + 1)
               ELSE IF t = "if" THEN Toks([r EXCEPT !.cs = TRUE], ts, i + 1)
               ELSE IF t \in {":", "include"} THEN [r EXCEPT !.x = Len(ts) = i \/ Knows(r, ts[i + 1]), !.e = IF Len(ts) = i THEN "" ELSE ts[i + 1] \o " Undefined word"]
               ELSE IF Knows(r, t) THEN Toks([r EXCEPT !.body = Append(r.body, t)], ts, i + 1)
               ELSE Fault(r, t, "Undefined word")
          ELSE CASE t = ":" -> IF i = Len(ts) THEN Fault(r, "", "Unexpected end of file")
                               ELSE LET n == ts[i + 1]
                                        s == IF n \in DOMAIN r.defs THEN Say(r, S2B("Redefining " \o n)) ELSE r
                                    IN Toks([s EXCEPT !.comp = TRUE, !.nm = n, !.body = <<>>, !.cs = FALSE], ts, i + 2)
                 [] t \in {";", "if"} -> Fault(r, t, "Interpreting a compile only word")
                 [] t = "include" -> IF ts[i + 1] \in FileNames
                                     THEN LET s == FLines(r, ts[i + 1], FileLines[ts[i + 1]], 1)
                                          IN Toks(s, ts, i + 2)
                                     ELSE [r EXCEPT !.q = "abort"]
                 [] OTHER -> Toks(Effect(r, t, t), ts, i + 1)
\* the answer to a line: what is flushed, what is left in the buffer, and the
\* reference afterwards
Answer(r, ts) ==
  LET s == Toks([r EXCEPT !.o = <<32>>, !.f = <<>>], ts, 1)
      empty == [s EXCEPT !.st = <<>>, !.comp = FALSE, !.e = "", !.q = "", !.loc = ""]
  IN IF s.e # "" THEN <<s.f \o s.o \o S2B(s.e \o s.loc \o ", backtrace: "), <<>>, "fault", empty>>
     ELSE IF s.q = "abort" THEN <<Flush_(s).f, <<>>, "", empty>>
     ELSE IF s.q = "quit" THEN <<s.f, s.o, "", [s EXCEPT !.comp = FALSE, !.q = ""]>>
     ELSE <<s.f \o s.o \o (IF s.comp THEN <<>> ELSE S2B(" ok")) \o CR \o LF, <<>>, "", s>>

-----------------------------------------------------------------------------
RECURSIVE ToReceive(_)
ToReceive(v) ==
  LET w == RunK(v, HOSTFUEL)
  IN IF w.bad # "" \/ w.probe = "r" THEN w
     ELSE IF w.probe # "" THEN ToReceive([w EXCEPT !.probe = ""])
     ELSE [w EXCEPT !.bad = IF w.phase = "idle" THEN "the shell ended" ELSE "out of fuel"]
Cold == ToReceive(PutAll(Exec([Fresh(Somewhere, XT("(abort)")) EXCEPT !.phase = "solo"], XT("cold")), FileNames))
FeedShell(m, t) == ToReceive(SetLine([Quiet(m) EXCEPT !.probe = ""], t))
Start == FeedShell(FeedShell(FeedShell(Cold, S2B(Words0[1])), S2B(Words0[2])), S2B(Words0[3]))
Cells_(st) == [i \in 1..Len(st) |-> IF st[i] = "-8" THEN FromInt(-8) ELSE FromInt(CHOOSE k \in 0..9 : ToString(k) = st[i])]
\* WILD in the pattern stands for any text
RECURSIVE Fits(_, _, _, _)
Fits(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF p[i] = WILD THEN \E k \in j..(Len(s) + 1) : Fits(p, i + 1, s, k)
  ELSE j <= Len(s) /\ p[i] = s[j] /\ Fits(p, i + 1, s, j + 1)
Wrong(m0, m, a) ==
  CASE m.bad # "" -> m.bad
    [] a[3] = "fault" /\ (~Fits(a[1] \o <<WILD>> \o CR \o LF, 1, m.std, 1) \/ m.out # <<>>) -> "answer to a fault"
    [] a[3] = "" /\ (~Fits(a[1], 1, m.std, 1) \/ m.out # a[2]) -> "answer"
    [] Entries(m.ds) # Cells_(a[4].st) -> "stack"
    [] m.comp # a[4].comp -> "compiling"
    [] m.fs.n # 0 \/ m.rs.n # m0.rs.n \/ (~m.comp /\ m.cs.n # 0) -> "other stacks"
    [] m.sid # 0 \/ m.err # 0 \/ m.cur # 0 \/ m.awake # [m0.awake EXCEPT ![2] = a[4].k # "asleep"] -> "state"
    [] OTHER -> ""
Init == USEQ = <<>> /\ UM = Start /\ UR = R0 /\ UE = ""
\* <<machine, reference, complaint>> after the lines ls from the i-th on
RECURSIVE Lines_(_, _, _)
Lines_(t, ls, i) ==
  IF i > Len(ls) \/ t[3] # "" THEN t
  ELSE LET a == Answer(t[2], Lines[ls[i]])
           m == FeedShell(t[1], Join(Lines[ls[i]]))
           w == Wrong(t[1], m, a)
       IN IF a[4].x THEN <<m, a[4], "x">>
          ELSE Lines_(<<m, [a[4] EXCEPT !.o = <<>>, !.f = <<>>], IF w # "" THEN ToString(<<w, m.std, m.out, a>>) ELSE "">>, ls, i + 1)
RECURSIVE Again(_, _, _)
\* (near the end of the stack we stop)
Again(t, ls, k) == IF k = 0 \/ t[3] # "" \/ Len(t[2].st) > 40 THEN t ELSE Again(Lines_(t, ls, 1), ls, k - 1)
Next ==
  /\ Len(USEQ) < MAXLEN /\ UE = ""
  /\ \E l \in LINES_USED :
       LET t0 == Lines_(<<UM, UR, "">>, <<l>>, 1)
           sq == Append(USEQ, l)
           t == IF Len(sq) = MAXLEN THEN Again(t0, sq, TIMES) ELSE t0
       IN /\ t[3] # "x"
          /\ USEQ' = sq /\ UM' = t[1] /\ UR' = t[2] /\ UE' = t[3]
View == USEQ
Answered == UE = ""
Emitted == Len(USEQ) = MAXLEN => PrintT(<<"SCRIPT", USEQ>>)
=============================================================================
