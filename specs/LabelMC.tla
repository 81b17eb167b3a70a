------------------------------- MODULE LabelMC -------------------------------
(***************************************************************************)
(* Labels, goto and call.  All definitions made of up to MAXLEN items; the *)
(* reference is a program counter over the items.  Behind every item its   *)
(* own letter is written, and every label takes one off a counter on the   *)
(* data stack and exits when it is used up, so that every run ends.        *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, ITEMS, FUELS
VARIABLES GSEQ,      \* the items
          GM,        \* the machine behind them
          GX         \* exception of the last item
\* item: <<what, label number>>
It == [ o \in {x \o k : x \in {"L", "G", "C", "K"}, k \in {"1", "2"}} \cup {"X", "Y"} |->
  CASE o = "L1" -> <<"label", 1>> [] o = "L2" -> <<"label", 999>> [] o = "G1" -> <<"goto", 1>> [] o = "G2" -> <<"goto", 999>>
    [] o = "C1" -> <<"call", 1>> [] o = "C2" -> <<"call", 999>> [] o = "K1" -> <<"cond", 1>> [] o = "K2" -> <<"cond", 999>>
    [] o = "X" -> <<"exit", 0>> [] OTHER -> <<"cexit", 0>> ]
Letter(i) == 64 + i
Text1(o, i) ==
  LET x == It[o] n == "[ " \o ToString(x[2]) \o " ] "
  IN (CASE x[1] = "label" -> n \o "label 1- dup 0< if exit then "
        [] x[1] = "goto" -> n \o "goto " [] x[1] = "call" -> n \o "call "
        [] x[1] = "cond" -> "dup 1 and if " \o n \o "goto then "
        [] x[1] = "cexit" -> "dup 1 and if exit then "
        [] OTHER -> "exit ") \o ToString(Letter(i)) \o " emit"
Start == FeedAll(Boot, <<": t 5 ;", "0labels : t">>, 1)
Init == GSEQ = <<>> /\ GM = Start /\ GX = 0
Next == /\ Len(GSEQ) < MAXLEN /\ GX = 0
        /\ \E o \in ITEMS :
             LET m == Feed(GM, S2B(Text1(o, Len(GSEQ) + 1)))
             IN GSEQ' = Append(GSEQ, o) /\ GM' = m /\ GX' = m.err
View == GSEQ

Defs(s, n) == {i \in 1..Len(s) : It[s[i]] = <<"label", n>>}
Refs(s, n) == {i \in 1..Len(s) : It[s[i]][1] \in {"goto", "call", "cond"} /\ It[s[i]][2] = n}
Numbers == {1, 999}
\* the reference run: <<letters, counter>>, giving up after fuel steps
RECURSIVE Walk(_, _, _, _, _, _)
Walk(s, pc, ret, k, acc, fuel) ==
  LET back(k1) == IF ret = <<>> THEN <<acc, k1>> ELSE Walk(s, ret[1] + 1, Tail(ret), k1, Append(acc, Letter(ret[1])), fuel - 1)
      on(k1) == Walk(s, pc + 1, ret, k1, Append(acc, Letter(pc)), fuel - 1)
      to(n) == CHOOSE i \in Defs(s, n) : TRUE
      odd == (k % 2) # 0
  IN IF fuel = 0 THEN <<<<>>, 9999>>
     ELSE IF pc > Len(s) THEN back(k)
     ELSE LET x == It[s[pc]]
          IN CASE x[1] = "label" -> IF k <= 0 THEN back(k - 1) ELSE on(k - 1)
               [] x[1] = "goto" -> Walk(s, to(x[2]), ret, k, acc, fuel - 1)
               [] x[1] = "call" -> Walk(s, to(x[2]), <<pc>> \o ret, k, acc, fuel - 1)
               [] x[1] = "cond" -> IF odd THEN Walk(s, to(x[2]), ret, k, acc, fuel - 1) ELSE on(k)
               [] x[1] = "cexit" -> IF odd THEN back(k) ELSE on(k)
               [] OTHER -> back(k)
Old == Find(Start, S2B("t"))
\* every label is defined at most once, and every one referred to is defined
Duplicate == \E n \in Numbers : Cardinality(Defs(GSEQ, n)) > 1
Complete == \A n \in Numbers : Refs(GSEQ, n) # {} => Defs(GSEQ, n) # {}
Refused == GX # 0 => GX = E_ARG /\ Duplicate /\ Find(GM, S2B("t")) = Old
Accepted == GX = 0 => ~Duplicate
Again(m) == \* the machine is as good as new
  LET u == Feed(Recover(m), S2B("0labels : u 1 [ 1 ] goto 2 [ 1 ] label 3 ; u t"))
  IN u.err = 0 /\ u.bad = "" /\ Entries(u.ds) = <<FromInt(1), FromInt(3), FromInt(5)>>
Runs ==
  GX = 0 =>
    LET e == Feed(GM, S2B(";"))
    IN IF ~Complete THEN e.err = E_CTRL /\ Find(e, S2B("t")) = Old /\ Again(e)
       ELSE /\ e.err = 0 /\ e.bad = ""
            /\ \A f \in FUELS :
                 LET w == Walk(GSEQ, 1, <<>>, f, <<>>, 300)
                     m == Feed(e, S2B(ToString(f) \o " t"))
                 IN w[2] = 9999 \/ (m.err = 0 /\ m.bad = "" /\ m.out = w[1] /\ Entries(m.ds) = <<FromInt(w[2])>> /\ m.rs.n = 0)
\* label numbers
Legal == GSEQ = <<>> =>
  \A w \in {"label", "goto", "call"} : \A n \in {"-1", "0", "1000", "1001", "max-n", "$100000001", "2", "999"} :
    LET m == Feed(GM, S2B("[ " \o n \o " ] " \o w)) IN m.err = (IF n \in {"2", "999"} THEN 0 ELSE E_ARG)
Emitted == PrintT(<<"SCRIPT", [i \in 1..Len(GSEQ) |-> Text1(GSEQ[i], i)],
                    IF Complete /\ ~Duplicate /\ \A f \in FUELS : Walk(GSEQ, 1, <<>>, f, <<>>, 300)[2] # 9999 THEN 1 ELSE 0>>)
=============================================================================
