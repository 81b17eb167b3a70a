------------------------------- MODULE LoopMC -------------------------------
(***************************************************************************)
(* Counted loops.  A reference meaning on small integers against the loops *)
(* the machine compiles, also with the whole range moved to the ends of    *)
(* the cell range (wrap-around).  One loop with every kind, step, limit    *)
(* and start; two nested loops with every way of leaving.                  *)
(***************************************************************************)
EXTENDS Host
CONSTANTS SHAPE,     \* "one" or "two"
          BASES,     \* where 0 lies: subset of {"zero", "max", "min"}
          VALS2,     \* limits and starts, plus 2
          STEPS3     \* steps of +loop, plus 3
VARIABLES PRG,       \* the program: a loop
          LB0,       \* the base
          LM,        \* the machine to start with
          DONE       \* (two steps, so that the work is spread over the workers)
VALS == {x - 2 : x \in VALS2}
STEPS == {x - 3 : x \in STEPS3}
LOOP == 99           \* the step standing for LOOP
Cap == 7      \* rounds; the count is kept on the data stack

\* cells at distance -3..4 from the base
CellText(b, x) ==
  CASE b = "zero" -> ToString(x)
    [] b = "max" -> IF x <= 0 THEN "922337203685477580" \o ToString(7 + x)
                    ELSE "-922337203685477580" \o ToString(9 - x)
    [] OTHER -> IF x < 0 THEN "922337203685477580" \o ToString(8 + x)
                ELSE "-922337203685477580" \o ToString(8 - x)
Back(b) == CASE b = "zero" -> <<>> [] b = "max" -> <<"-9223372036854775807", "+">> [] OTHER -> <<"-9223372036854775808", "+">>

\* actions: p n (print the n-th index), g d (guard, d frames to drop), l n x (leave
\* if the n-th index is x), x n x d (exit likewise), o loop
Index(n) == IF n = 1 THEN "i" ELSE "j"
RECURSIVE Txt(_, _, _), Acts(_, _, _)
Unl(d) == [k \in 1..d |-> "unloop"]
Txt(b, lp, k) ==
  <<CellText(b, lp.l), CellText(b, lp.s), lp.k>> \o Acts(b, lp.body, 1)
  \o (IF lp.e = LOOP THEN <<"loop">> ELSE <<ToString(lp.e), "+loop">>)
Acts(b, as, k) ==
  IF k > Len(as) THEN <<>>
  ELSE LET a == as[k]
       IN (CASE a.a = "p" -> <<Index(a.n)>> \o Back(b) \o <<"75", "+", "emit">>
             [] a.a = "g" -> <<"1+", "dup", ToString(Cap), "=", "if">> \o Unl(a.d) \o <<"exit", "then">>
             [] a.a = "l" -> <<Index(a.n), CellText(b, a.x), "=", "if", "leave", "then">>
             [] a.a = "x" -> <<Index(a.n), CellText(b, a.x), "=", "if">> \o Unl(a.d) \o <<"exit", "then">>
             [] OTHER -> Txt(b, a.lp, 1)) \o Acts(b, as, k + 1)

\* the reference
RECURSIVE RLoop(_, _, _), RIter(_, _, _, _), RActs(_, _, _, _)
RLoop(lp, st, fr) == IF lp.k = "?do" /\ lp.l = lp.s THEN st ELSE RIter(lp, lp.s, st, fr)
RIter(lp, i, st, fr) ==
  LET b == RActs(lp.body, 1, st, <<i>> \o fr)
      d == IF lp.e = LOOP THEN 1 ELSE lp.e
  IN IF b.how = "leave" THEN [b EXCEPT !.how = "go"]
     ELSE IF b.how = "exit" THEN b
     ELSE IF (d >= 0 /\ i < lp.l /\ lp.l <= i + d) \/ (d < 0 /\ i + d < lp.l /\ lp.l <= i) THEN b
     ELSE RIter(lp, i + d, b, fr)
RActs(as, k, st, fr) ==
  IF k > Len(as) \/ st.how # "go" THEN st
  ELSE LET a == as[k]
       IN RActs(as, k + 1,
            CASE a.a = "p" -> [st EXCEPT !.out = Append(st.out, fr[a.n] + 75)]
              [] a.a = "g" -> [st EXCEPT !.c = st.c + 1, !.how = IF st.c + 1 = Cap THEN "exit" ELSE "go"]
              [] a.a = "l" -> IF fr[a.n] = a.x THEN [st EXCEPT !.how = "leave"] ELSE st
              [] a.a = "x" -> IF fr[a.n] = a.x THEN [st EXCEPT !.how = "exit"] ELSE st
              [] OTHER -> RLoop(a.lp, st, fr), fr)

P_(n) == [a |-> "p", n |-> n]
G_(d) == [a |-> "g", d |-> d]
L_(n, x) == [a |-> "l", n |-> n, x |-> x]
X_(n, x, d) == [a |-> "x", n |-> n, x |-> x, d |-> d]
Ends == STEPS \cup {LOOP}
Lp(k, e, l, s, body) == [k |-> k, e |-> e, l |-> l, s |-> s, body |-> body]
One_ == {Lp(k, e, l, s, <<P_(1), G_(1)>> \o t) :
           k \in {"do", "?do"}, e \in Ends, l \in VALS, s \in VALS,
           t \in {<<>>, <<L_(1, 0), P_(1)>>, <<X_(1, 1, 1)>>, <<P_(1), L_(1, -1)>>}}
Inner == {Lp(k, e, l, s, <<P_(1), P_(2), G_(2)>> \o t) :
           k \in {"do", "?do"}, e \in Ends, l \in VALS, s \in VALS,
           t \in {<<>>, <<L_(1, 0), P_(2)>>, <<L_(2, 1)>>, <<X_(1, 1, 2)>>, <<X_(2, 0, 2)>>}}
Two_ == {Lp(k, e, l, s, <<P_(1), [a |-> "o", lp |-> n], P_(1), G_(1)>> \o t) :
           k \in {"do"}, e \in Ends, l \in VALS, s \in VALS, n \in Inner, t \in {<<>>, <<L_(1, 0)>>}}

NoLoop == Lp("", 0, 0, 0, <<>>)
Init == LM = Boot /\ PRG = NoLoop /\ LB0 \in BASES /\ DONE = FALSE
Next == \/ /\ PRG = NoLoop
           /\ PRG' \in (IF SHAPE = "one" THEN One_ ELSE Two_)
           /\ UNCHANGED <<LB0, LM, DONE>>
        \/ PRG # NoLoop /\ ~DONE /\ DONE' = TRUE /\ UNCHANGED <<PRG, LM, LB0>>
View == <<PRG, LB0, DONE>>
Def == <<":", "t">> \o Txt(LB0, PRG, 1) \o <<";">>
Runs ==
  DONE =>
  LET r == RLoop(PRG, [out |-> <<>>, c |-> 0, how |-> "go"], <<>>)
      m == Feed(Feed(LM, Join(Def)), S2B("8 0 t"))
  IN /\ m.err = 0 /\ m.bad = ""
     /\ m.out = r.out
     /\ Entries(m.ds) = <<FromInt(8), FromInt(r.c)>> /\ Entries(m.rs) = <<>>
     /\ PrintT(<<"SCRIPT", Def>>)
=============================================================================
