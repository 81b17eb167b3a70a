------------------------------- MODULE RtfTrace -------------------------------
(***************************************************************************)
(* Validation of sessions of the real interactive program: keystrokes on a *)
(* terminal, what the line shows after each, what is printed when a line   *)
(* is delivered, and the history file that is left.  The program is the    *)
(* line editor (Edit.tla) feeding the shell (RtForth.tla).                 *)
(***************************************************************************)
EXTENDS RtForthTrace, Edit
VARIABLES EDS,      \* the editor
          OPENED,   \* a line is being edited
          KEYN,     \* keys consumed
          PEND      \* output not yet compared, belongs to event EVN
rvars == <<SC, VMS, ITEM, BUSY, EVN, FUEL, ST, EDS, OPENED, KEYN, PEND>>

Here(n) == S.ev[n]
PutAll_(m, fs) == LET RECURSIVE Go(_, _)
                      Go(x, k) == IF k > Len(fs) THEN x ELSE Go(Host(x, [op |-> "put", n |-> fs[k].n, b |-> fs[k].b]), k + 1)
                  IN Go(m, 1)
RStart == LET m == SetLine(PutAll_(Fresh(S.start, S.handler), S.files), S.args)
          IN Exec([m EXCEPT !.phase = "solo"], XT("cold"))
RInit == /\ SC \in 1..Len(Traces)
         /\ EVN = 1 /\ ITEM = 0 /\ FUEL = 0 /\ BUSY = TRUE /\ ST = "run" /\ VMS = RStart
         /\ EDS = EdNew(EdLoad(S.hist, 1, <<>>, <<>>)) /\ OPENED = FALSE /\ KEYN = 0
         /\ PEND = (IF S.args = <<>> THEN <<WILD>> ELSE <<>>)

RStay == UNCHANGED <<SC, VMS, ITEM, BUSY, EVN, EDS, OPENED, KEYN, PEND>>
RReject(what) == /\ PrintT(<<"REJECT", S.id, KEYN, what>>) /\ ST' = "rej" /\ RStay /\ UNCHANGED FUEL
RSkip(what) == /\ PrintT(<<"SKIP", S.id, KEYN, what>>) /\ ST' = "skip" /\ RStay /\ UNCHANGED FUEL

RCompute == /\ VMS.bad = "" /\ VMS.probe # "r" /\ VMS.phase # "idle"
            /\ IF FUEL > MAXFUEL THEN RSkip("endless loop")
               ELSE /\ VMS' = RunK([VMS EXCEPT !.probe = ""], BATCH) /\ FUEL' = FUEL + 1
                    /\ UNCHANGED <<SC, ITEM, BUSY, EVN, ST, EDS, OPENED, KEYN, PEND>>
RBad == VMS.bad # "" /\ RSkip(VMS.bad)

\* the shell asks for a line
ROpen == /\ VMS.bad = "" /\ VMS.probe = "r" /\ ~OPENED
         /\ EDS' = EdOpen(EDS) /\ OPENED' = TRUE /\ PEND' = PEND \o VMS.std /\ VMS' = [VMS EXCEPT !.std = <<>>]
         /\ UNCHANGED <<SC, ITEM, BUSY, EVN, FUEL, ST, KEYN>>

\* at most n keys, no further than the one that ends the line (enter or ctrl-d), as
\* one step: <<editor, last key taken, complaint>>; the output before the first key
\* is pend, key i is answered by event i + 1.  (TLC is slow in deep recursions.)
RECURSIVE Keys(_, _, _, _)
Keys(e, i, pend, n) ==
  IF i > Len(S.keys) THEN <<e, i - 1, <<"session without end">>>>
  ELSE LET k == S.keys[i]
           d == TLCEval(EdKey(e, k))
       IN IF k.k = "eof" THEN <<e, i, <<>>>>
          ELSE IF ~TextOk(pend, Here(i).out) THEN <<e, i, <<"output", "spec", pend, "impl", Here(i).out>>>>
          ELSE IF i = Len(S.ev) \/ Here(i + 1).k # "key"
               THEN <<e, i, <<"expected an answer to key", k, "but", IF i = Len(S.ev) THEN "nothing" ELSE Here(i + 1)>>>>
          ELSE LET w == TLCEval(EdWidth(d.buf, d.x))
               IN IF Here(i + 1).text # d.buf \/ Here(i + 1).col # w
                  THEN <<e, i, <<"line", k, "spec", d.buf, w, "impl", Here(i + 1).text, Here(i + 1).col>>>>
                  ELSE IF k.k = "enter" \/ n = 1 THEN <<d, i, <<>>>>
                  ELSE Keys(d, TLCEval(i + 1), <<>>, TLCEval(n - 1))
RKey == /\ VMS.bad = "" /\ VMS.probe = "r" /\ OPENED
        /\ \E t \in {Keys(EDS, KEYN + 1, PEND, 16)} :
           IF t[3] # <<>> THEN /\ PrintT(<<"REJECT", S.id, t[2], t[3]>>) /\ ST' = "rej" /\ RStay /\ UNCHANGED FUEL
           ELSE LET last == S.keys[t[2]].k
                IN /\ KEYN' = t[2] /\ FUEL' = 0 /\ OPENED' = (last \notin {"enter", "eof"})
                   /\ EVN' = (IF last = "eof" THEN t[2] ELSE t[2] + 1)
                   /\ EDS' = (IF last = "enter" THEN EdClose(t[1]) ELSE t[1])
                   /\ PEND' = (IF last = "eof" /\ t[2] = KEYN + 1 THEN PEND ELSE <<>>)
                   /\ VMS' = (CASE last = "eof" -> [VMS EXCEPT !.probe = "", !.ip = -1, !.ipr = Zero]
                                [] last = "enter" -> [SetLine(VMS, t[1].buf) EXCEPT !.probe = ""]
                                [] OTHER -> VMS)
                   /\ UNCHANGED <<SC, ITEM, BUSY, ST>>
\* the program ends: it flushes, and keeps the history
REnd == /\ VMS.bad = "" /\ VMS.phase = "idle" /\ VMS.probe # "r"
        /\ LET o == PEND \o VMS.std \o (IF VMS.out = <<>> THEN <<>> ELSE VMS.out \o <<10>>)
               last == EVN + 1
           IN IF ~(TextOk(Append(o, 13), Here(EVN).out) \/ TextOk(o, Here(EVN).out))
              THEN RReject(<<"last output", "spec", o, "impl", Here(EVN).out>>)
              ELSE IF last > Len(S.ev) \/ Here(last).k # "exit"
                   THEN RReject(<<"expected the end of the program, but", IF last > Len(S.ev) THEN "nothing" ELSE Here(last)>>)
              ELSE IF Here(last).hist # EdFile(EDS)
                   THEN RReject(<<"history file", "spec", EdFile(EDS), "impl", Here(last).hist>>)
              ELSE /\ PrintT(<<"ACCEPT", S.id, last, FALSE>>) /\ ST' = "ok" /\ RStay /\ UNCHANGED FUEL

RNext == ST = "run" /\ (RBad \/ RCompute \/ ROpen \/ RKey \/ REnd)
RSpec == RInit /\ [][RNext]_rvars
RView == <<SC, EVN, FUEL, ST, KEYN, OPENED>>
-----------------------------------------------------------------------------
\* the cursor is between two characters, the history never loses the present line
EditOK == /\ EDS.x \in 0..Len(EDS.buf) /\ (EDS.x = Len(EDS.buf) \/ ~EdCont(EDS.buf[EDS.x + 1]))
          /\ (OPENED => EDS.h \in 1..Len(EDS.hist))
=============================================================================
