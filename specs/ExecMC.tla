------------------------------- MODULE ExecMC -------------------------------
(***************************************************************************)
(* Control structures, run time.  Structured programs up to a depth, with  *)
(* a reference meaning defined on the program text (a tree), against the   *)
(* branches the machine compiles, for every history of flags and selectors.*)
(***************************************************************************)
EXTENDS Host
CONSTANTS DEPTH,     \* nesting
          FLAGS,     \* number of flags / selectors offered
          WIDE       \* bodies of two structures in sequence at depth 1
VARIABLES TREE,      \* the program
          EM,        \* the machine that has compiled it
          HIST       \* the flags it is given
\* A tree is a sequence of nodes; <<"m">> prints a mark.
M1 == <<"m">>
Kinds1 == {"if", "until", "while", "again", "casen"}      \* one body
Kinds2 == {"ifelse", "case"}                              \* two bodies
RECURSIVE Bodies(_)
Nodes(d) == LET b == Bodies(d - 1)
            IN {<<k, x>> : k \in Kinds1, x \in b} \cup {<<k, x, y>> : k \in Kinds2, x \in b, y \in b}
               \cup {<<"exitif", x>> : x \in b} \cup {<<"recurse">>}
Bodies(d) == IF d = 0 THEN {<<M1>>}
             ELSE LET n == Nodes(d)
                  IN {<<M1>>, <<M1, M1>>} \cup {<<M1, x>> : x \in n} \cup {<<x, M1>> : x \in n}
                     \cup (IF WIDE /\ d = 1 THEN {<<x, y>> : x \in n, y \in n} ELSE {})

(* The text, and the reference meaning.  Marks are numbered in the order of  *)
(* the text; a mark prints its number as a character.                        *)
Mark(n) == <<ToString(65 + n), "emit">>
\* render a body: <<tokens, next mark>>
RECURSIVE Text(_, _, _), NodeText(_, _)
Text(b, i, n) == IF i > Len(b) THEN <<<<>>, n>>
                 ELSE LET x == NodeText(b[i], n) IN LET r == Text(b, i + 1, x[2]) IN <<x[1] \o r[1], r[2]>>
NodeText(x, n) ==
  CASE x[1] = "m" -> <<Mark(n), n + 1>>
    [] x[1] = "recurse" -> <<<<"?more", "if", "drop", "recurse", "then">>, n>>
    [] x[1] = "if" -> LET b == Text(x[2], 1, n) IN <<<<"if">> \o b[1] \o <<"then">>, b[2]>>
    [] x[1] = "exitif" -> LET b == Text(x[2], 1, n) IN <<<<"if">> \o b[1] \o <<"exit", "then">>, b[2]>>
    [] x[1] = "ifelse" -> LET b == Text(x[2], 1, n) IN LET c == Text(x[3], 1, b[2])
                          IN <<<<"if">> \o b[1] \o <<"else">> \o c[1] \o <<"then">>, c[2]>>
    [] x[1] = "until" -> LET b == Text(x[2], 1, n) IN <<<<"begin">> \o b[1] \o <<"until">>, b[2]>>
    [] x[1] = "again" -> LET b == Text(x[2], 1, n)
                         IN <<<<"begin">> \o b[1] \o <<"if", "exit", "then", "again">>, b[2]>>
    [] x[1] = "while" -> LET b == Text(x[2], 1, n + 1)
                         IN <<<<"begin">> \o Mark(n) \o <<"while">> \o b[1] \o <<"repeat">>, b[2]>>
    [] x[1] = "casen" -> LET b == Text(x[2], 1, n)     \* the default shows the selector
                         IN <<<<"case", "-1", "of">> \o b[1] \o <<"endof", "dup", "66", "+", "emit", "endcase">>, b[2]>>
    [] OTHER -> LET b == Text(x[2], 1, n) IN LET c == Text(x[3], 1, b[2])
                IN <<<<"case", "0", "of">> \o b[1] \o <<"endof", "-1", "of">> \o c[1] \o <<"endof", "99", "emit", "endcase">>, c[2]>>

\* meaning: state <<flags left, output, how>>; how: "go", "exit", "dry" (no flag left)
RECURSIVE Ev(_, _, _, _), EvNode(_, _, _), Loop(_, _, _), MarksIn(_, _), NodeMarks(_)
MarksIn(b, i) == IF i > Len(b) THEN 0 ELSE NodeMarks(b[i]) + MarksIn(b, i + 1)
NodeMarks(x) == CASE x[1] = "m" -> 1
                  [] x[1] = "recurse" -> 0
                  [] x[1] = "while" -> 1 + MarksIn(x[2], 1)
                  [] x[1] \in {"ifelse", "case"} -> MarksIn(x[2], 1) + MarksIn(x[3], 1)
                  [] OTHER -> MarksIn(x[2], 1)
Take(s) == [s EXCEPT !.f = Tail(s.f)]
Dry(s) == [s EXCEPT !.how = "dry"]
Put(s, c) == [s EXCEPT !.out = Append(s.out, c)]
Ev(b, i, n, s) == IF i > Len(b) \/ s.how # "go" THEN s
                  ELSE Ev(b, i + 1, n + NodeMarks(b[i]), EvNode(b[i], n, s))
EvNode(x, n, s) ==
  IF x[1] = "m" THEN Put(s, 65 + n)
  ELSE IF x[1] = "recurse"
       THEN \* once more, one flag spent, if at least three are left
            IF Len(s.f) < 3 THEN s
            ELSE LET r == Ev(TREE, 1, 0, Take(s)) IN IF r.how = "exit" THEN [r EXCEPT !.how = "go"] ELSE r
  ELSE IF x[1] \in {"until", "again", "while"} THEN Loop(x, n, s)
  ELSE IF s.f = <<>> THEN Dry(s)
  ELSE LET c == s.f[1] t == Take(s)
       IN CASE x[1] = "if" -> IF c # 0 THEN Ev(x[2], 1, n, t) ELSE t
            [] x[1] = "exitif" -> IF c # 0 THEN LET r == Ev(x[2], 1, n, t) IN IF r.how = "go" THEN [r EXCEPT !.how = "exit"] ELSE r
                                  ELSE t
            [] x[1] = "ifelse" -> IF c # 0 THEN Ev(x[2], 1, n, t) ELSE Ev(x[3], 1, n + MarksIn(x[2], 1), t)
            [] x[1] = "casen" -> IF c = -1 THEN Ev(x[2], 1, n, t) ELSE Put(t, 66 + c)
            [] x[1] = "case" -> IF c = 0 THEN Ev(x[2], 1, n, t)
                                ELSE IF c = -1 THEN Ev(x[3], 1, n + MarksIn(x[2], 1), t) ELSE Put(t, 99)
\* loops end because every round takes a flag
Loop(x, n, s) ==
  IF x[1] = "while"
  THEN LET h == Put(s, 65 + n)
       IN IF h.f = <<>> THEN Dry(h)
          ELSE IF h.f[1] = 0 THEN Take(h)
          ELSE LET b == Ev(x[2], 1, n + 1, Take(h)) IN IF b.how = "go" THEN Loop(x, n, b) ELSE b
  ELSE LET b == Ev(x[2], 1, n, s)
       IN IF b.how # "go" THEN b
          ELSE IF b.f = <<>> THEN Dry(b)
          ELSE IF b.f[1] = 0 THEN Loop(x, n, Take(b))
          ELSE IF x[1] = "until" THEN Take(b) ELSE [Take(b) EXCEPT !.how = "exit"]

Vals == {0, -1, 5}
Def == <<":", "t">> \o Text(TREE, 1, 0)[1] \o <<";">>
Lits == [i \in 1..FLAGS |-> ToString(HIST[FLAGS + 1 - i])]
Base == Feed(Boot, S2B(": ?more depth 2 > ;"))
Init == TREE = <<>> /\ HIST = <<>> /\ EM = Base
Next == \/ TREE = <<>> /\ TREE' \in Bodies(DEPTH) /\ UNCHANGED <<HIST, EM>>
        \/ TREE # <<>> /\ HIST = <<>> /\ EM.last = Base.last /\ EM' = Feed(EM, Join(Def)) /\ UNCHANGED <<TREE, HIST>>
        \/ TREE # <<>> /\ HIST = <<>> /\ EM.last # Base.last /\ HIST' \in [1..FLAGS -> Vals] /\ UNCHANGED <<TREE, EM>>
View == <<TREE, HIST, EM.last>>
Compiled == EM.err = 0 /\ EM.bad = "" /\ ~EM.comp /\ EM.ds.n = 0 /\ EM.cs.n = 0
Ref == Ev(TREE, 1, 0, [f |-> HIST, out |-> <<>>, how |-> "go"])
\* the flags taken, and nothing else, are gone; those left are still there
Runs ==
  HIST # <<>> =>
  LET r == Ref
  IN r.how # "dry" =>
     LET m == Feed(EM, Join(Lits \o <<"t">>))
     IN /\ m.err = 0 /\ m.bad = ""
        /\ m.out = r.out
        /\ Entries(m.ds) = [i \in 1..Len(r.f) |-> FromInt(r.f[Len(r.f) + 1 - i])]
        /\ Entries(m.rs) = <<>>
        /\ PrintT(<<"SCRIPT", Def, Lits>>)
=============================================================================
