------------------------------- MODULE CtrlMC -------------------------------
(***************************************************************************)
(* Control structures, compile time.  Which strings of control words are a *)
(* properly nested definition is said by a rewriting system; the machine   *)
(* (a stack of open structures) has to accept exactly those.  All strings  *)
(* up to MAXLEN, except extensions of strings already refused.             *)
(***************************************************************************)
EXTENDS Host
CONSTANT MAXLEN
VARIABLES CSEQ,      \* the words between : t and ;
          CM         \* the machine behind them
Toks == {"if", "else", "then", "begin", "while", "repeat", "until", "again", "case", "of", "endof", "endcase",
         "do", "?do", "loop", "+loop", "leave"}
\* both opening and both closing words of a counted loop are the same to the grammar
Sym(w) == IF w = "?do" THEN "do" ELSE IF w = "+loop" THEN "loop" ELSE w
Rules == { <<<<"if", "then">>, <<>>>>, <<<<"if", "else", "then">>, <<>>>>,
           <<<<"begin", "until">>, <<>>>>, <<<<"begin", "again">>, <<>>>>, <<<<"begin", "while", "repeat">>, <<>>>>,
           <<<<"do", "loop">>, <<>>>>, <<<<"case", "endcase">>, <<>>>>, <<<<"case", "of", "endof">>, <<"case">>>> }
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* read the string from the left, reducing as soon as possible (the rules do not overlap)
RECURSIVE Nf(_, _, _)
Nf(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = "leave"
       THEN Nf(s, i + 1, IF \E k \in 1..Len(acc) : acc[k] = "do" THEN acc ELSE Append(acc, "leave"))
       ELSE LET a == Append(acc, Sym(s[i]))
                m == {r \in Rules : Ends(a, r[1])}
            IN Nf(s, i + 1, IF m = {} THEN a
                            ELSE LET r == CHOOSE r \in m : TRUE
                                 IN SubSeq(a, 1, Len(a) - Len(r[1])) \o r[2])
Normal(s) == Nf(s, 1, <<>>)
WellFormed(s) == Normal(s) = <<>>
\* the string may become well-formed by going on
RECURSIVE Open(_)
Open(n) == n = <<>>
           \/ \E p \in {<<"if">>, <<"if", "else">>, <<"begin">>, <<"begin", "while">>, <<"do">>, <<"case">>, <<"case", "of">>} :
                Ends(n, p) /\ Open(SubSeq(n, 1, Len(n) - Len(p)))

Colon == Feed(Feed(Boot, S2B(": t 5 ;")), S2B(": t"))
Init == CSEQ = <<>> /\ CM = Colon
Next == /\ Len(CSEQ) < MAXLEN /\ CM.err = 0
        /\ \E w \in Toks : CSEQ' = Append(CSEQ, w) /\ CM' = Feed(CM, S2B(w))
View == CSEQ
Old == Find(Colon, S2B("t"))
Refused == CM.err # 0 => /\ CM.err = E_CTRL /\ ~Open(Normal(CSEQ))
                         /\ Find(CM, S2B("t")) = Old
Ended == CM.err = 0 =>
  LET e == Feed(CM, S2B(";"))
  IN IF WellFormed(CSEQ)
     THEN /\ e.err = 0 /\ ~e.comp /\ Find(e, S2B("t")) # Old
          /\ e.cs.n = 0 /\ e.ds.n = 0
     ELSE /\ e.err = E_CTRL /\ Find(e, S2B("t")) = Old
          \* the machine is as good as new
          /\ LET u == Feed(Recover(e), S2B(": u if t else 7 then ; 0 u -1 u"))
             IN u.err = 0 /\ Entries(u.ds) = <<FromInt(7), FromInt(5)>>
Emitted == PrintT(<<"SCRIPT", CSEQ>>)
=============================================================================
