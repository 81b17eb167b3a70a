------------------------------- MODULE DictMC -------------------------------
(***************************************************************************)
(* The dictionary.  All histories of defining, redefining, failing to      *)
(* define, using, marking and forgetting, over names that meet in the same *)
(* place of a hash table.  The reference is a plain list of definitions.   *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, OPS
VARIABLES DSEQ,      \* the operations done
          DL,        \* the reference: sequence of [n, v, imm, here, fin]
          DM,        \* the machine
          DOK        \* output and exception of the last operation were right
A == "xa"
B == "y@"
\* op: what, name as written, name
Op == [ o \in {"Da", "DA", "Db", "Ra", "Rb", "Fa", "Fb", "Ua", "Ub", "M", "N", "X", "Y", "Ia", "Ca", "Ka"} |->
  CASE o = "Da" -> <<"def", "xa", A>> [] o = "DA" -> <<"def", "Xa", A>> [] o = "Db" -> <<"def", "y@", B>>
    [] o = "Ra" -> <<"re", "XA", A>> [] o = "Rb" -> <<"re", "Y@", B>> [] o = "Fa" -> <<"fail", "xa", A>> [] o = "Fb" -> <<"fail", "y@", B>>
    [] o = "Ua" -> <<"use", "xa", A>> [] o = "Ub" -> <<"use", "Y@", B>>
    [] o = "M" -> <<"mark", "m", "m">> [] o = "N" -> <<"mark", "n", "n">>
    [] o = "X" -> <<"run", "m", "m">> [] o = "Y" -> <<"run", "N", "n">> [] o = "Ia" -> <<"imm", "xa", A>>
    [] o = "Ca" -> <<"con", "xa", A>> [] OTHER -> <<"conly", "xa", A>> ]
Find_(l, n) == IF \E i \in 1..Len(l) : l[i].n = n THEN CHOOSE i \in 1..Len(l) : l[i].n = n /\ \A j \in (i + 1)..Len(l) : l[j].n # n ELSE 0
E_(n, v, here) == [n |-> n, v |-> v, imm |-> FALSE, co |-> FALSE, here |-> here, mark |-> FALSE]
K == 100 + Len(DSEQ)
\* the line of an operation
LineOf(o, k) ==
  LET w == Op[o][2] c == Op[o][1]
  IN CASE c = "def" -> ": " \o w \o " " \o ToString(k) \o " ;"
       [] c = "re" -> ": " \o w \o " " \o w \o " 10 + ;"
       [] c = "fail" -> ": " \o w \o " nosuch ;"
       [] c = "use" -> ": u " \o w \o " ;"
       [] c = "mark" -> "marker " \o w
       [] c = "run" -> w
       [] c = "imm" -> ": " \o w \o " " \o ToString(k) \o " ; immediate"
       [] c = "conly" -> ": " \o w \o " " \o ToString(k) \o " ; compile-only"
       [] OTHER -> ToString(k) \o " constant " \o w
\* what it does: <<new list, exception, output>>
Redef(o) == IF Find_(DL, Op[o][3]) > 0 THEN S2B("Redefining " \o Op[o][3]) ELSE <<>>
RefUse(l) == Find_(l, "u")
Effect(o) ==
  LET c == Op[o][1] n == Op[o][3] i == Find_(DL, n) h == DM.here
      add(v) == Append(DL, E_(n, v, h))
  IN CASE c = "def" -> <<add(K), 0, Redef(o)>>
       [] c = "con" -> <<add(K), 0, Redef(o)>>
       [] c = "imm" -> <<Append(DL, [E_(n, K, h) EXCEPT !.imm = TRUE]), 0, Redef(o)>>
       [] c = "conly" -> <<Append(DL, [E_(n, K, h) EXCEPT !.co = TRUE]), 0, Redef(o)>>
       [] c = "re" -> IF i = 0 THEN <<DL, E_UNDEF, <<>>>>
                      \* an immediate word runs now and leaves its value on the stack, which + then misses
                      ELSE IF DL[i].imm THEN <<Append(DL, E_(n, -1, h)), 0, Redef(o)>>
                      ELSE <<add(IF DL[i].v < 0 THEN -1 ELSE DL[i].v + 10), 0, Redef(o)>>
       [] c = "fail" -> <<DL, E_UNDEF, Redef(o)>>
       [] c = "use" -> LET r == IF Find_(DL, "u") > 0 THEN S2B("Redefining u") ELSE <<>>
                       IN IF i = 0 THEN <<DL, E_UNDEF, r>>
                          ELSE IF DL[i].imm THEN <<Append(DL, E_("u", -1, h)), 0, r>>
                          ELSE <<Append(DL, E_("u", DL[i].v, h)), 0, r>>
       [] c = "mark" -> <<Append(DL, [E_(n, -1, h) EXCEPT !.mark = TRUE]), 0, Redef(o)>>
       [] OTHER -> IF i = 0 THEN <<DL, E_UNDEF, <<>>>> ELSE <<SubSeq(DL, 1, i - 1), 0, <<>>>>
HereAfter(o) == \* where the data space ends after running a marker, else -1
  LET i == Find_(DL, Op[o][3]) IN IF Op[o][1] = "run" /\ i > 0 THEN DL[i].here ELSE -1
Init == DSEQ = <<>> /\ DL = <<>> /\ DOK = TRUE /\ DM = Boot
Next == /\ Len(DSEQ) < MAXLEN
        /\ \E o \in OPS :
             LET m == Feed(DM, S2B(LineOf(o, K)))
                 x == Effect(o)
             IN /\ DSEQ' = Append(DSEQ, o)
                /\ DL' = x[1]
                /\ DM' = Recover(m)
                /\ DOK' = (/\ m.err = x[2] /\ m.out = x[3] /\ m.bad = ""
                           /\ (HereAfter(o) >= 0 => m.here = HereAfter(o)))
View == DSEQ
Right == DOK
\* every name means its newest definition, in any spelling; compiled uses keep theirs
Means(n, w) ==
  LET i == Find_(DL, n)
      m == Feed(DM, S2B(w))
      q == Feed(DM, S2B(": q 1 " \o w \o " 2 ; 7 q"))
      t == Feed(DM, S2B("' " \o w))
  IN IF i = 0 THEN m.err = E_UNDEF /\ q.err = E_UNDEF /\ t.err = E_UNDEF
     ELSE /\ t.err = 0
          /\ IF DL[i].v < 0 THEN TRUE
             ELSE /\ IF DL[i].co THEN m.err = E_COMPONLY
                     ELSE m.err = 0 /\ Entries(m.ds) = <<FromInt(DL[i].v)>>
                  /\ q.err = 0
                  /\ Entries(q.ds) = (IF DL[i].imm THEN <<FromInt(DL[i].v), FromInt(7), FromInt(1), FromInt(2)>>
                                      ELSE <<FromInt(7), FromInt(1), FromInt(DL[i].v), FromInt(2)>>)
Meaning == Means(A, "xA") /\ Means(B, "Y@") /\ Means("u", "u")
Marks == \A n \in {"m", "n"} : (Find_(DL, n) > 0) = (Feed(DM, S2B("' " \o n)).err = 0)
Emitted == Len(DSEQ) = MAXLEN => PrintT(<<"SCRIPT", [i \in 1..Len(DSEQ) |-> LineOf(DSEQ[i], 99 + i)]>>)
=============================================================================
