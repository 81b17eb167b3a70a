-------------------------------- MODULE TaskMC ------------------------------
(***************************************************************************)
(* Tasks, facilities and waiting.  A reference scheduler (programs are     *)
(* sequences of actions, a task is a position in its program) against the  *)
(* tasks of the machine, for all small programs of three tasks.            *)
(***************************************************************************)
EXTENDS Host
CONSTANTS AL1, AL2, AL3,   \* actions of the terminal task and the tasks 2 and 3
          LN1, LN2, LN3    \* lengths of their programs
VARIABLES TP,        \* the programs, TP[1] chosen last
          TM,        \* the machine with the tasks 2 and 3 running
          TPH        \* phase 0..4
(* Actions: m mark; p pause; s1 s2 s3 suspend; r1 r2 r3 resume; x stop (suspend
   oneself and pause); g get; f release; w0 w1 w2 wait n ms; k a millisecond
   passes; h2 h3 halt; a2 a3 activate again.  After every action but the last
   of a task follows a mark: the task prints a number kept on its own stack. *)
RECURSIVE Progs(_, _)
Progs(al, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, a) : s \in Progs(al, n - 1), a \in al}
Marking == <<"dup", "emit", "1+">>
ActText(a) ==
  (CASE a = "m" -> <<"1+">> [] a = "p" -> <<"pause">>
     [] a = "s1" -> <<"1", "suspend">> [] a = "s2" -> <<"2", "suspend">> [] a = "s3" -> <<"3", "suspend">>
     [] a = "r1" -> <<"1", "resume">> [] a = "r2" -> <<"2", "resume">> [] a = "r3" -> <<"3", "resume">>
     [] a = "x" -> <<"stop">> [] a = "g" -> <<"fa", "get">> [] a = "f" -> <<"fa", "release">>
     [] a = "w0" -> <<"0", "ms">> [] a = "w1" -> <<"1", "ms">> [] a = "w2" -> <<"2", "ms">> [] a = "k" -> <<"tick">>
     [] a = "h2" -> <<"2", "halt">> [] a = "h3" -> <<"3", "halt">> [] a = "a2" -> <<"t2">> [] OTHER -> <<"t3">>) \o Marking
RECURSIVE ProgText(_, _)
ProgText(p, i) == IF i > Len(p) THEN <<>> ELSE ActText(p[i]) \o ProgText(p, i + 1)
Mark0 == <<65, 85, 105>>
Task(k) == <<":", "t" \o ToString(k), ToString(k), "activate", ToString(Mark0[k])>> \o Marking \o ProgText(TP[k], 1)
           \o <<"begin", "pause", "again", ";">>
Main == <<":", "m", ToString(Mark0[1])>> \o ProgText(TP[1], 1) \o <<";">>

\* ------------------------------------------------------------ the reference
\* pc: 0 before the first mark, n + 1 idle; 99 halted (idle for ever)
Ref0 == [pc |-> <<1, 0, 0>>, val |-> Mark0, aw |-> <<TRUE, TRUE, TRUE>>, cur |-> 1, out |-> <<>>, own |-> 0, now |-> 0,
         till |-> <<-1, -1, -1>>, how |-> "go"]
NextTask(s) == LET n(k) == (k % 3) + 1
                   a == n(s.cur) b == n(a)
               IN IF s.aw[a] THEN a ELSE IF s.aw[b] THEN b ELSE IF s.aw[s.cur] THEN s.cur ELSE 0
Switch(s) == LET n == NextTask(s) IN IF n = 0 THEN [s EXCEPT !.how = "asleep"] ELSE [s EXCEPT !.cur = n]
\* the action is done: print the mark, go on
Done_(s) == [s EXCEPT !.out = Append(s.out, s.val[s.cur]), !.val[s.cur] = @ + 1, !.pc[s.cur] = @ + 1]
\* done, but the mark comes after the switch: keep a pending position
RECURSIVE RunRef(_, _)
\* pend[c]: the current action of c is done except for its mark
StepRef(s) ==
  LET c == s.cur k == s.pc[c]
  IN IF k = 0 THEN Done_(s)
     ELSE IF k > Len(TP[c]) THEN (IF c = 1 THEN [s EXCEPT !.how = "end"] ELSE Switch(s))
     ELSE LET a == TP[c][k]
              Ret(u) == \* switch away, having finished but for the mark
                   Switch([u EXCEPT !.till[c] = -2])
          IN IF s.till[c] = -2 THEN Done_([s EXCEPT !.till[c] = -1])
             ELSE CASE a = "m" -> Done_([s EXCEPT !.val[c] = @ + 1])
               [] a = "p" -> Ret(s)
               [] a = "x" -> Ret([s EXCEPT !.aw[c] = FALSE])
               [] a = "s1" -> Done_([s EXCEPT !.aw[1] = FALSE])
               [] a = "s2" -> Done_([s EXCEPT !.aw[2] = FALSE])
               [] a = "s3" -> Done_([s EXCEPT !.aw[3] = FALSE])
               [] a = "r1" -> Done_([s EXCEPT !.aw[1] = TRUE])
               [] a = "r2" -> Done_([s EXCEPT !.aw[2] = TRUE])
               [] a = "r3" -> Done_([s EXCEPT !.aw[3] = TRUE])
               [] a = "g" -> IF s.own = 0 THEN Done_([s EXCEPT !.own = c]) ELSE Switch(s)
               [] a = "f" -> Done_(IF s.own = c THEN [s EXCEPT !.own = 0] ELSE s)
               [] a = "k" -> Done_([s EXCEPT !.now = @ + 1])
               [] a \in {"w0", "w1", "w2"} ->
                    LET n == IF a = "w0" THEN 0 ELSE IF a = "w1" THEN 1 ELSE 2
                        t == IF s.till[c] = -1 THEN s.now + n ELSE s.till[c]
                    IN IF s.now < t THEN Switch([s EXCEPT !.till[c] = t]) ELSE Done_([s EXCEPT !.till[c] = -1])
               [] a \in {"h2", "h3"} ->
                    LET n == IF a = "h2" THEN 2 ELSE 3
                    IN Done_([s EXCEPT !.pc[n] = 99, !.aw[n] = TRUE, !.till[n] = -1])
               [] a \in {"a2", "a3"} ->
                    LET n == IF a = "a2" THEN 2 ELSE 3
                    IN Done_([s EXCEPT !.pc[n] = 0, !.val[n] = Mark0[n], !.aw[n] = TRUE, !.till[n] = -1])
RunRef(s, fuel) == IF s.how # "go" THEN s
                   ELSE IF fuel = 0 THEN [s EXCEPT !.how = "long"] ELSE RunRef(StepRef(s), fuel - 1)

\* ------------------------------------------------------------ the model
Base == Feed(Boot, S2B("variable fa 0 fa !"))
Init == TP = <<<<>>, <<>>, <<>>>> /\ TPH = 0 /\ TM = Base
Next == \/ TPH = 0 /\ TPH' = 1 /\ TM' = TM /\ \E a \in Progs(AL2, LN2), b \in Progs(AL3, LN3) : TP' = <<<<>>, a, b>>
        \/ TPH = 1 /\ TPH' = 2 /\ TP' = TP /\ TM' = Feed(Feed(TM, Join(Task(2))), Join(Task(3)))
        \/ TPH = 2 /\ TPH' = 3 /\ TM' = TM /\ \E a \in Progs(AL1, LN1) : TP' = [TP EXCEPT ![1] = a]
View == <<TP, TPH>>
Ref == RunRef(Ref0, 120)
Scheduled ==
  TPH = 3 =>
  LET r == Ref
  IN r.how = "end" =>
     LET m == Feed(Feed(TM, Join(Main)), S2B("t2 t3 m"))
     IN /\ m.err = 0 /\ m.bad = ""
        /\ m.out = r.out
        /\ m.cur = 0 /\ Entries(m.ds) = <<FromInt(r.val[1])>> /\ m.rs.n = 0
        /\ \A k \in 1..3 : m.awake[k] = r.aw[k]
        /\ PrintT(<<"SCRIPT", Task(2), Task(3), Main>>)
\* in the reference: a facility taken is not taken by another until released, and
\* the one who finds it free gets it
=============================================================================
