------------------------------- MODULE RangeMC ------------------------------
(***************************************************************************)
(* Stack limits.  The reference knows only depths: where each word reads   *)
(* and stores.  All short programs near the bottom and near the top of     *)
(* each stack, interpreted (a check after each word) and compiled (one     *)
(* check at the end, which has to know of earlier excursions).             *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE,     \* "interp", "comp", "ret"
          LEN,       \* words per program
          DEPTHS,    \* data depths to start from
          FDEPTHS    \* float depths to start from
VARIABLES RD0, RF0,  \* the depths chosen
          RSEQ,      \* the program
          RMACH,     \* the machine, stacks filled
          RDONE
LIMIT == 64
\* stack, operands, results, results that are operands left in place (from the bottom)
Tab == [ w \in {"7", "dup", "drop", "swap", "over", "nip", "rot", "2dup", "2drop", "2swap", "2over", "depth",
                "1e", "fdup", "fdrop", "fswap", "fover", "fnip", "frot", ">r", "r>", "r@", "2>r", "2r>", "2r@"} |->
  CASE w = "7" -> <<"d", 0, 1, 0>> [] w = "depth" -> <<"d", 0, 1, 0>> [] w = "dup" -> <<"d", 1, 2, 1>>
    [] w = "drop" -> <<"d", 1, 0, 0>> [] w = "swap" -> <<"d", 2, 2, 0>> [] w = "over" -> <<"d", 2, 3, 2>>
    [] w = "nip" -> <<"d", 2, 1, 0>> [] w = "rot" -> <<"d", 3, 3, 0>> [] w = "2dup" -> <<"d", 2, 4, 2>>
    [] w = "2drop" -> <<"d", 2, 0, 0>> [] w = "2swap" -> <<"d", 4, 4, 0>> [] w = "2over" -> <<"d", 4, 6, 4>>
    [] w = "1e" -> <<"f", 0, 1, 0>> [] w = "fdup" -> <<"f", 1, 2, 1>> [] w = "fdrop" -> <<"f", 1, 0, 0>>
    [] w = "fswap" -> <<"f", 2, 2, 0>> [] w = "fover" -> <<"f", 2, 3, 2>> [] w = "fnip" -> <<"f", 2, 1, 0>>
    [] w = "frot" -> <<"f", 3, 3, 0>>
    [] w = ">r" -> <<"r", 0, 1, 1>> [] w = "2>r" -> <<"r", 0, 2, 2>> [] w = "r>" -> <<"r", 1, 0, -1>>
    [] w = "2r>" -> <<"r", 2, 0, -2>> [] w = "r@" -> <<"d", 0, 1, 0>> [] OTHER -> <<"d", 0, 2, 0>> ]
DataW == {w \in DOMAIN Tab : Tab[w][1] = "d" /\ w \notin {"r@", "2r@"}}
FloatW == {w \in DOMAIN Tab : Tab[w][1] = "f"}
RetW == {">r", "r>", "r@", "2>r", "2r>", "2r@"}

\* a reference stack: depth now, ever above the top, ever stored below the bottom
S0(n) == [n |-> n, hi |-> FALSE, lo |-> FALSE, junk |-> FALSE, maybe |-> FALSE]
\* a store below the bottom shows if it changes what is there: the depths at which
\* a word certainly does so, because it moves an entry there (junk: entries may
\* have been read from below the bottom)
SureLow(w, n) == CASE w \in {"swap", "fswap", "nip", "fnip"} -> n = 1
                   [] w \in {"rot", "frot"} -> n \in {1, 2}
                   [] w = "2swap" -> n \in {2, 3}
                   [] OTHER -> w \in {"7", "1e", "depth"}
Move(s, w, k, m, own) ==
  LET low == s.n - k
      st == m > own /\ low + own < 0
  IN [n |-> low + m, hi |-> s.hi \/ low + m > LIMIT,
      lo |-> s.lo \/ (st /\ SureLow(w, s.n) /\ ~s.junk), junk |-> s.junk \/ low < 0,
      maybe |-> s.maybe \/ (st /\ ~(SureLow(w, s.n) /\ ~s.junk))]
GrowBy(s, x) == IF x >= 0 THEN Move(s, "", 0, x, 0) ELSE Move(s, "", -x, 0, 0)
Step(st, w) ==
  LET e == Tab[w]
  IN IF e[1] = "d" THEN [st EXCEPT !.d = Move(st.d, w, e[2], e[3], e[4])]
     ELSE IF e[1] = "f" THEN [st EXCEPT !.f = Move(st.f, w, e[2], e[3], e[4])]
     ELSE [st EXCEPT !.d = GrowBy(st.d, -e[4]), !.r = Move(st.r, w, e[2], e[3], 0)]
Over(s) == s.n > LIMIT \/ s.hi
Under(s) == s.n < 0 \/ s.lo
Code(st) == IF Over(st.d) THEN E_SOVER ELSE IF Under(st.d) THEN E_SUNDER
            ELSE IF Over(st.r) THEN E_ROVER ELSE IF Under(st.r) THEN E_RUNDER
            ELSE IF Over(st.f) THEN E_FOVER ELSE IF Under(st.f) THEN E_FUNDER ELSE 0
Start(d, f, r) == [d |-> S0(d), f |-> S0(f), r |-> S0(r)]
RECURSIVE Interp(_, _, _), All(_, _, _)
\* <<code, state>>: stop at the first token with an exception
Interp(ws, i, st) == IF i > Len(ws) THEN <<0, st>>
                     ELSE LET s == Step(st, ws[i]) c == Code(s) IN IF c # 0 THEN <<c, s>> ELSE Interp(ws, i + 1, s)
All(ws, i, st) == IF i > Len(ws) THEN st ELSE All(ws, i + 1, Step(st, ws[i]))
\* return-stack use has to be balanced, and inside the definition
RECURSIVE Balanced(_, _, _)
Net(w) == IF Tab[w][1] = "r" THEN Tab[w][3] - Tab[w][2] ELSE 0
Balanced(ws, i, n) == IF i > Len(ws) THEN n = 0
                      ELSE IF (ws[i] = "r@" /\ n < 1) \/ (ws[i] = "2r@" /\ n < 2) THEN FALSE
                      ELSE n + Net(ws[i]) >= 0 /\ Balanced(ws, i + 1, n + Net(ws[i]))

Words == CASE SHAPE = "interp" -> DataW \cup FloatW
           [] SHAPE = "comp" -> DataW \cup FloatW \cup RetW
           [] OTHER -> RetW \cup {"7", "drop", "over"}
RECURSIVE SeqsTo(_)
SeqsTo(n) == IF n = 0 THEN {<<>>} ELSE SeqsTo(n - 1) \cup {Append(s, w) : s \in {s \in SeqsTo(n - 1) : Len(s) = n - 1}, w \in Words}
\* keep to words of the stack under test (the other one starts empty)
Sensible(s, d, f) ==
  /\ s # <<>>
  /\ f > 0 => \A i \in 1..Len(s) : Tab[s[i]][1] = "f"
  /\ f = 0 /\ d > 2 => \A i \in 1..Len(s) : Tab[s[i]][1] # "f"
  /\ SHAPE # "interp" => Balanced(s, 1, 0)
  /\ SHAPE = "ret" => \E i \in 1..Len(s) : s[i] \in RetW

Fill(d, f) == Join([i \in 1..(d + f) |-> IF i <= d THEN ToString(100 + i) ELSE "2e"])
Deep == S2B(": deep dup if 1- recurse exit then drop t ;")
Init == /\ RD0 = -1 /\ RF0 = 0 /\ RSEQ = <<>> /\ RDONE = FALSE /\ RMACH = Boot
Next == \/ /\ RD0 = -1
           /\ \/ RD0' \in DEPTHS /\ RF0' = 0
              \/ SHAPE # "ret" /\ RD0' = 0 /\ RF0' \in FDEPTHS
           /\ UNCHANGED <<RSEQ, RDONE, RMACH>>
        \/ /\ RD0 >= 0 /\ RSEQ = <<>>
           /\ RSEQ' \in {s \in SeqsTo(LEN) : Sensible(s, RD0, RF0)}
           /\ RMACH' = (IF SHAPE = "ret" THEN RMACH ELSE Feed(RMACH, Fill(RD0, RF0)))
           /\ UNCHANGED <<RD0, RF0, RDONE>>
        \/ RSEQ # <<>> /\ ~RDONE /\ RDONE' = TRUE /\ UNCHANGED <<RD0, RF0, RSEQ, RMACH>>
View == <<RD0, RF0, RSEQ, RDONE>>
Def == S2B(": t ") \o Join(RSEQ) \o S2B(" ;")
Ref == CASE SHAPE = "interp" -> Interp(RSEQ, 1, Start(RD0, RF0, 0))
         [] SHAPE = "comp" -> LET s == All(RSEQ, 1, Start(RD0, RF0, 1)) IN <<Code(s), s>>
         [] OTHER -> LET s == All(RSEQ, 1, Start(4, 0, RD0 + 2)) IN <<Code(s), s>>
Run_ == CASE SHAPE = "interp" -> Feed(RMACH, Join(RSEQ))
          [] SHAPE = "comp" -> Feed(Feed(RMACH, Def), S2B("t"))
          [] OTHER -> Feed(Feed(Feed(RMACH, Def), Deep), S2B("1 2 3 4 " \o ToString(RD0) \o " deep"))
Detected ==
  RDONE =>
  LET r == Ref m == Run_
  IN (m.bad = "" /\ ~r[2].d.maybe /\ ~r[2].f.maybe /\ ~r[2].r.maybe) =>
     /\ m.err = r[1]
     /\ IF r[1] = 0
        THEN m.ds.n = r[2].d.n /\ m.fs.n = r[2].f.n /\ m.rs.n = 0
        ELSE /\ m.ds.n = 0 /\ m.fs.n = 0 /\ m.cs.n = 0
             \* and no imagined exception afterwards
             /\ LET u == Feed(Reset(m), S2B("5 1e dup drop fdup fdrop"))
                IN u.err = 0 /\ u.ds.n = 1 /\ u.fs.n = 1
Emitted == RDONE => PrintT(<<"SCRIPT", RD0, RF0, RSEQ>>)
=============================================================================
