-------------------------------- MODULE EditMC --------------------------------
(***************************************************************************)
(* The line editor against a reference that knows characters, not bytes:   *)
(* the text is a pair of character lists (before and behind the cursor),   *)
(* the history a list of texts with a place in it.  All sequences of up to *)
(* MAXLEN keys behind PRE lines that were entered before.                  *)
(***************************************************************************)
EXTENDS Edit, TLC
CONSTANTS MAXLEN, KEYS_USED, PRE
VARIABLES KSEQ, ED, RF, GOT
Alphabet == [a |-> <<97>>, sp |-> <<32>>, e2 |-> <<195, 169>>, z3 |-> <<228, 184, 173>>, p4 |-> <<240, 159, 152, 128>>, acc |-> <<204, 129>>]
Cols == [a |-> 1, sp |-> 1, e2 |-> 1, z3 |-> 2, p4 |-> 2, acc |-> 0]
KeyOf(n) == IF n \in DOMAIN Alphabet THEN [k |-> "char", b |-> Alphabet[n]] ELSE [k |-> n]
Before == << <<>>, << <<"a">> >>, << <<"a">>, <<"e2", "z3">> >>, << <<"z3">>, <<"a", "acc">>, <<"p4">> >> >>[PRE + 1]

\* ----- reference -----
\* l, r: characters before (nearest last) and behind the cursor; up: texts older
\* than the one in front of us (nearest last); dn: newer ones (nearest first)
\* o: how the text was when we came to it
RefOpen(hist) == [l |-> <<>>, r |-> <<>>, up |-> hist, dn |-> <<>>, o |-> <<>>]
Text(f) == f.l \o f.r
RefKey(f, n) ==
  CASE n \in DOMAIN Alphabet -> [f EXCEPT !.l = Append(f.l, n)]
    [] n = "bs" -> IF f.l = <<>> THEN f ELSE [f EXCEPT !.l = SubSeq(f.l, 1, Len(f.l) - 1)]
    [] n = "left" -> IF f.l = <<>> THEN f
                     ELSE [f EXCEPT !.l = SubSeq(f.l, 1, Len(f.l) - 1), !.r = <<f.l[Len(f.l)]>> \o f.r]
    [] n = "right" -> IF f.r = <<>> THEN f ELSE [f EXCEPT !.l = Append(f.l, Head(f.r)), !.r = Tail(f.r)]
    [] n = "up" -> IF f.up = <<>> THEN [f EXCEPT !.l = Text(f), !.r = <<>>, !.o = Text(f)]
                   ELSE [l |-> f.up[Len(f.up)], o |-> f.up[Len(f.up)], r |-> <<>>, up |-> SubSeq(f.up, 1, Len(f.up) - 1), dn |-> <<Text(f)>> \o f.dn]
    [] n = "down" -> IF f.dn = <<>> THEN [f EXCEPT !.l = Text(f), !.r = <<>>, !.o = Text(f)]
                     ELSE [l |-> Head(f.dn), o |-> Head(f.dn), r |-> <<>>, up |-> Append(f.up, Text(f)), dn |-> Tail(f.dn)]
    [] n = "enter" -> [f EXCEPT !.l = Text(f), !.r = <<>>]
    [] OTHER -> f
\* the history once the line is delivered: texts changed and left with up or down
\* stay changed, the one that is delivered does not (it becomes the newest text)
RefHist(f) ==
  LET whole == f.up \o <<f.o>> \o f.dn
      old == SubSeq(whole, 1, Len(whole) - 1)
  IN IF Text(f) = <<>> THEN old ELSE Append(old, Text(f))

RECURSIVE Enc(_, _, _), SumCols(_, _, _)
Enc(t, i, acc) == IF i > Len(t) THEN acc ELSE Enc(t, i + 1, acc \o Alphabet[t[i]])
SumCols(t, i, n) == IF i > Len(t) THEN n ELSE SumCols(t, i + 1, n + Cols[t[i]])
EncAll(q) == [i \in 1..Len(q) |-> Enc(q[i], 1, <<>>)]

Init == KSEQ = <<>> /\ ED = EdOpen(EdNew(EncAll(Before))) /\ RF = RefOpen(Before) /\ GOT = <<>>
Next == /\ Len(KSEQ) < MAXLEN
        /\ \E n \in KEYS_USED :
             LET e == EdKey(ED, KeyOf(n))
                 f == RefKey(RF, n)
             IN /\ KSEQ' = Append(KSEQ, n)
                /\ IF n = "enter"
                   THEN ED' = EdOpen(EdClose(e)) /\ RF' = RefOpen(RefHist(f)) /\ GOT' = Append(GOT, <<e.buf, Enc(Text(f), 1, <<>>)>>)
                   ELSE ED' = e /\ RF' = f /\ UNCHANGED GOT
Shown == /\ ED.buf = Enc(Text(RF), 1, <<>>)
         /\ ED.x = Len(Enc(RF.l, 1, <<>>))
         /\ EdWidth(ED.buf, ED.x) = SumCols(RF.l, 1, 0)
Delivered == \A i \in 1..Len(GOT) : GOT[i][1] = GOT[i][2]
History == EdClose(ED).hist = EncAll(RefHist(RF))
\* the file written at the end is read back as the same history
NoEmpty(q) == SelectSeq(q, LAMBDA s : s # <<>>)
Kept == LET q == EdClose(ED).hist IN EdLoad(EdFile([ED EXCEPT !.hist = q]), 1, <<>>, <<>>) = NoEmpty(EdLastN(q, EdMAX))
\* moving never changes a text, typing and erasing is nothing, up and down is nothing but the cursor's place
Harmless == /\ \A n \in {"left", "right", "tab", "enter"} : EdKey(ED, [k |-> n]).buf = ED.buf /\ EdKey(ED, [k |-> n]).hist = ED.hist
            /\ \A n \in DOMAIN Alphabet : EdKey(EdKey(ED, KeyOf(n)), [k |-> "bs"]) = ED
            /\ ED.h > 1 => EdKey(EdKey(ED, [k |-> "up"]), [k |-> "down"]).buf = ED.buf
Emitted == Len(KSEQ) = MAXLEN => PrintT(<<"SCRIPT", PRE, KSEQ>>)
===============================================================================
