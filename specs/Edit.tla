--------------------------------- MODULE Edit ---------------------------------
(***************************************************************************)
(* The line editor of the interactive shell: the line under construction   *)
(* (UTF-8 bytes and a byte position), and the history, the last entry of   *)
(* which is the draft of the present line.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
EdMAX == 32

\* ----- characters -----
EdCont(b) == b \in 128..191
RECURSIVE EdBack(_, _)
EdBack(s, x) == IF x = 0 \/ x = Len(s) \/ ~EdCont(s[x + 1]) THEN x ELSE EdBack(s, x - 1)
RECURSIVE EdForth(_, _)
EdForth(s, x) == IF x >= Len(s) \/ ~EdCont(s[x + 1]) THEN x ELSE EdForth(s, x + 1)
EdCode(s, i) ==
  LET b == s[i]
  IN IF b < 128 THEN b
     ELSE IF b < 224 THEN (b - 192) * 64 + (s[i + 1] - 128)
     ELSE IF b < 240 THEN ((b - 224) * 64 + (s[i + 1] - 128)) * 64 + (s[i + 2] - 128)
     ELSE (((b - 240) * 64 + (s[i + 1] - 128)) * 64 + (s[i + 2] - 128)) * 64 + (s[i + 3] - 128)
\* columns taken by a character: combining accents none, East Asian and pictures two
EdWide == << <<4352, 4447>>, <<11904, 42191>>, <<44032, 55203>>, <<63744, 64255>>, <<65280, 65376>>, <<127744, 129791>> >>
EdColumns(c) == IF c \in 768..879 THEN 0
                ELSE IF \E k \in 1..Len(EdWide) : EdWide[k][1] <= c /\ c <= EdWide[k][2] THEN 2 ELSE 1
\* columns taken by the first x bytes
EdWidth(s, x) == Cardinality({j \in 1..x : ~EdCont(s[j]) /\ EdColumns(EdCode(s, j)) > 0})
                 + Cardinality({j \in 1..x : s[j] > 223 /\ EdColumns(EdCode(s, j)) = 2})

\* ----- the editor -----
EdLastN(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
EdNew(hist) == [hist |-> EdLastN(hist, EdMAX), h |-> 0, buf |-> <<>>, x |-> 0]
\* a new line is begun
EdOpen(e) == [hist |-> Append(e.hist, <<>>), h |-> Len(e.hist) + 1, buf |-> <<>>, x |-> 0]
EdRecall(e, h2) == LET hs == [e.hist EXCEPT ![e.h] = e.buf]
                   IN [hist |-> hs, h |-> h2, buf |-> hs[h2], x |-> Len(hs[h2])]
EdKey(e, k) ==
  CASE k.k = "char" -> [e EXCEPT !.buf = SubSeq(e.buf, 1, e.x) \o k.b \o SubSeq(e.buf, e.x + 1, Len(e.buf)), !.x = e.x + Len(k.b)]
    [] k.k = "bs" -> IF e.x = 0 THEN e
                     ELSE LET y == EdBack(e.buf, e.x - 1)
                          IN [e EXCEPT !.buf = SubSeq(e.buf, 1, y) \o SubSeq(e.buf, e.x + 1, Len(e.buf)), !.x = y]
    [] k.k = "left" -> IF e.x = 0 THEN e ELSE [e EXCEPT !.x = EdBack(e.buf, e.x - 1)]
    [] k.k = "right" -> IF e.x = Len(e.buf) THEN e ELSE [e EXCEPT !.x = EdForth(e.buf, e.x + 1)]
    [] k.k = "up" -> EdRecall(e, IF e.h = 1 THEN 1 ELSE e.h - 1)
    [] k.k = "down" -> EdRecall(e, IF e.h = Len(e.hist) THEN e.h ELSE e.h + 1)
    [] k.k = "enter" -> [e EXCEPT !.x = Len(e.buf)]
    [] OTHER -> e
\* the line is delivered
EdClose(e) == IF e.buf = <<>> THEN [e EXCEPT !.hist = SubSeq(e.hist, 1, Len(e.hist) - 1)]
              ELSE [e EXCEPT !.hist[Len(e.hist)] = e.buf]

\* ----- the history file -----
RECURSIVE EdSave(_, _, _)
EdSave(q, i, acc) == IF i > Len(q) THEN acc ELSE EdSave(q, i + 1, IF q[i] = <<>> THEN acc ELSE acc \o q[i] \o <<10>>)
EdFile(e) == EdSave(EdLastN(e.hist, EdMAX), 1, <<>>)
\* the lines of a file, each ended by LF or CR LF, the last one perhaps not
EdChop(s) == IF s # <<>> /\ s[Len(s)] = 13 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE EdLoad(_, _, _, _)
EdLoad(f, i, line, acc) ==
  IF i > Len(f) THEN IF line = <<>> THEN acc ELSE Append(acc, line)
  ELSE IF f[i] = 10 THEN EdLoad(f, i + 1, <<>>, Append(acc, EdChop(line)))
  ELSE EdLoad(f, i + 1, Append(line, f[i]), acc)
===============================================================================
