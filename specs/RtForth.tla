------------------------------- MODULE RtForth -------------------------------
(***************************************************************************)
(* The rtForth virtual machine: state and transitions.                     *)
(*                                                                         *)
(* A machine state is a record v.  Fields of the running task are "checked *)
(* out" (ds, rs, ... below); the other tasks are kept in v.t.              *)
(*                                                                         *)
(*   ds rs cs fs   stacks: [n, a, h], a ring of 256 slots, see below       *)
(*   ip, ipr       instruction pointer: offset in data space, or <= -10    *)
(*                 inside the library microcode, or -1 = stopped (ipr is   *)
(*                 then the raw cell)                                      *)
(*   wp awp        executing word, word that executed when it aborted (-1: *)
(*                 some word inside a library word)                        *)
(*   comp          compiling?                                              *)
(*   inb hasin     input buffer of the task (background tasks have none)   *)
(*   si sid        source index, source id                                 *)
(*   files srcs lines   open files, open sources and their current lines   *)
(*   t cur awake   other tasks, running task (0..4), awake flags           *)
(*   mem xm here   data space from offset h0 on, known cells below h0,     *)
(*                 data-space pointer                                      *)
(*   dict last     user words, index of the last definition                *)
(*   err handler   pending exception code (0 = none), handler xt           *)
(*   out std       output buffer, flushed output                           *)
(*   tok now       last token, milliseconds since the start                *)
(*   tm tu         time of the start in milli- and microseconds (cells)    *)
(*   lab fwd res   labels, unresolved and resolved label numbers           *)
(*   ino dir       contents of files by inode, names -> inode              *)
(*   phase         "idle" | "tok" | "run": the outer interpreter           *)
(*   probe         set by probe words, observed by the trace specification *)
(*   bad           the program left what this specification describes      *)
(*   rfz           depth of the return stack not described until reset     *)
(*                                                                         *)
(* Cells with a negative first limb are unknown values (UNK, ANYF) or      *)
(* microcode return addresses.                                             *)
(***************************************************************************)
EXTENDS Fp, Loop, FiniteSets, SequencesExt

CONSTANTS
  BaseWords,     \* word list of the freshly started system: [n, b, nfa, dfa]
  XtOf,          \* its newest definition (execution token) by name
  DSCap,         \* capacity of the data space in bytes
  H0,            \* data-space offset where user definitions start
  GuardD, GuardR, GuardF   \* guard values of the data, return and float stacks

NTASKS == 5
SLIM == 64       \* usable entries of each stack
RING == 256
HALF == 128
CELL == 8
LABELS == 1000
SRCSTACK == 16

KIF == 1  KELSE == 2  KBEGIN == 3  KWHILE == 4  KDO == 5  KCASE == 6  KOF == 7  KENDOF == 8
CAN == <<-1, 0, 0, 0, 0, 0, 0, 0>>        \* guard of the control stack
UNK == <<-2, 0, 0, 0, 0, 0, 0, 0>>
UNKCELL == <<-2, -2, -2, -2, -2, -2, -2, -2>>
WILD == -1       \* in output: any text
Num(x) == x[1] >= 0

\* exception codes
E_ABORT == -1        E_SOVER == -3     E_SUNDER == -4   E_ROVER == -5
E_RUNDER == -6       E_ADDR == -9      E_DIV == -10     E_UNDEF == -13
E_COMPONLY == -14    E_UNSUPP == -21   E_CTRL == -22    E_ARG == -24
E_IO == -37          E_EOF == -39      E_FOVER == -44   E_FUNDER == -45

Describe(e) ==
  CASE e = -1 -> "Aborted" [] e = -3 -> "Stack overflow" [] e = -4 -> "Stack underflow"
    [] e = -5 -> "Return stack overflow" [] e = -6 -> "Return stack underflow"
    [] e = -9 -> "Invalid memory address" [] e = -10 -> "Division by zero"
    [] e = -13 -> "Undefined word" [] e = -14 -> "Interpreting a compile only word"
    [] e = -21 -> "Unsupported operation" [] e = -22 -> "Control structure mismatch"
    [] e = -24 -> "Invalid numeric argument" [] e = -37 -> "File I/O exception"
    [] e = -39 -> "Unexpected end of file" [] e = -44 -> "Floating point stack overflow"
    [] e = -45 -> "Floating point stack underflow" [] OTHER -> ""

-----------------------------------------------------------------------------
(* Ring stacks.  a holds slots 0.., h holds slots 255, 254, ...; slots in   *)
(* between were never written and hold the guard value c.  The guards in    *)
(* slots 64 and 255 betray accesses outside the stack, unless exactly the   *)
(* guard value is written there.                                            *)
Empty(c) == [n |-> 0, a |-> <<>>, h |-> <<>>, c |-> c]
EmptyD == Empty(GuardD)
EmptyR == Empty(GuardR)
EmptyC == Empty(CAN)
EmptyF == Empty(GuardF)
Slot(s, i) ==
  IF i < HALF THEN (IF i < Len(s.a) THEN s.a[i + 1] ELSE s.c)
  ELSE (IF RING - i <= Len(s.h) THEN s.h[RING - i] ELSE s.c)
RECURSIVE Grow(_, _, _)
Grow(q, n, c) == IF Len(q) >= n THEN q ELSE Grow(Append(q, c), n, c)
PutSlot(s, i, x) ==
  IF i < HALF
  THEN IF i < Len(s.a) THEN (IF s.a[i + 1] = x THEN s ELSE [s EXCEPT !.a[i + 1] = x])
       ELSE IF x = s.c THEN s
       ELSE [s EXCEPT !.a = Append(Grow(s.a, i, s.c), x)]
  ELSE LET k == RING - i
       IN IF k <= Len(s.h) THEN [s EXCEPT !.h[k] = x]
          ELSE IF x = s.c THEN s
          ELSE [s EXCEPT !.h = Append(Grow(s.h, k - 1, s.c), x)]
Psh(s, x) == LET p == PutSlot(s, s.n, x) IN [p EXCEPT !.n = (s.n + 1) % RING]
Pk(s, k) == Slot(s, (s.n - k) % RING)           \* k = 1 is the top
Drp(s, k) == [s EXCEPT !.n = (s.n - k) % RING]
RECURSIVE PshAll(_, _, _)
PshAll(s, xs, i) == IF i > Len(xs) THEN s ELSE PshAll(Psh(s, xs[i]), xs, i + 1)
RepK(s, k, xs) == PshAll(Drp(s, k), xs, 1)
Overflown(s)  == Slot(s, SLIM) # s.c \/ (s.n > SLIM /\ s.n <= HALF)
Underflown(s) == Slot(s, RING - 1) # s.c \/ s.n > HALF
\* a value this specification does not know lies on a guard
Unsure(s) == \E i \in {SLIM, RING - 1} : LET x == Slot(s, i) IN x # s.c /\ x[1] < 0 /\ x[1] > -100
\* the entries, bottom first; <<>> for a stack outside its limits
Entries(s) == [i \in 1..(IF s.n > HALF THEN 0 ELSE s.n) |-> Slot(s, i - 1)]

-----------------------------------------------------------------------------
(* The system dictionary.                                                    *)
NB == Len(BaseWords)
BaseName == LET bw == BaseWords IN Force([i \in 1..Len(bw) |-> bw[i].n])
\* newest definition of every name (execution token)
RECURSIVE BaseIdxR(_, _, _)
BaseIdxR(bw, i, acc) == IF i > Len(bw) THEN acc ELSE BaseIdxR(bw, i + 1, (bw[i].b :> (i - 1)) @@ acc)
BaseIdx == BaseIdxR(BaseWords, 2, <<>>)
XT(name) == XtOf[name]
BaseDfa(name) == BaseWords[XT(name) + 1].dfa

Immediates == {"(", "\\", "[", "[']", "[char]", ";", "if", "else", "then", "case", "of",
  "endof", "endcase", "begin", "while", "repeat", "until", "again", "0labels", "label",
  "goto", "call", "recurse", "do", "?do", "loop", "+loop", "postpone", "does>", "s\"",
  ".\"", ".(", "chars", "literal", "2literal", "fliteral", "~"}
CompileOnly == {"exit", "lit", "flit", "_s\"", "branch", "0branch", "_do", "_qdo", "_loop",
  "_+loop", "unloop", "leave", "i", "j", ">r", "r>", "r@", "2>r", "2r>", "2r@", "compile,",
  "_postpone", "_does", "[']", "[char]", ";", "if", "else", "then", "case", "of", "endof",
  "endcase", "begin", "while", "repeat", "until", "again", "label", "goto", "call",
  "recurse", "do", "?do", "loop", "+loop", "postpone", "does>", "s\"", ".\"", "pause",
  "activate", "literal", "2literal", "fliteral"}
IsImm(v, xt) == IF xt < NB THEN BaseName[xt + 1] \in Immediates ELSE v.dict[xt - NB + 1].im
IsCO(v, xt)  == IF xt < NB THEN BaseName[xt + 1] \in CompileOnly ELSE v.dict[xt - NB + 1].co
NWords(v) == NB + Len(v.dict)
NameOf(v, xt) == IF xt < NB THEN BaseWords[xt + 1].b ELSE v.dict[xt - NB + 1].n
NfaOf(v, xt) == IF xt < NB THEN BaseWords[xt + 1].nfa ELSE v.dict[xt - NB + 1].nfa
DfaOf(v, xt) == IF xt < NB THEN BaseWords[xt + 1].dfa ELSE v.dict[xt - NB + 1].dfa

\* newest visible definition with the name (already lower case), or -1
RECURSIVE FindR(_, _, _)
FindR(d, i, b) == IF i = 0 THEN -1
                  ELSE IF ~d[i].hid /\ d[i].n = b THEN NB + i - 1 ELSE FindR(d, i - 1, b)
Find(v, tok) ==
  LET b == Lower(tok)
      u == FindR(v.dict, Len(v.dict), b)
  IN IF u >= 0 THEN u ELSE IF b \in DOMAIN BaseIdx THEN BaseIdx[b] ELSE -1

-----------------------------------------------------------------------------
(* Data space.                                                               *)
AddrC(v, off) == Add(v.start, FromInt(off))
\* offset of an address, -1 if it is not in 0..DSCap
OffOf(v, c) == LET d == Sub(c, v.start)
               IN IF SmallNat(d) /\ ToNat(d) <= DSCap THEN ToNat(d) ELSE -1
\* does [c, c + n) lie in the data space (n a natural number)
Inside(off, n) == off >= 0 /\ off + n <= DSCap

\* cells far behind the data-space pointer are kept in xm, too
HTOP == H0 + 16000
CellAt(v, o) ==   \* o aligned
  IF o >= H0 /\ o < HTOP
  THEN LET i == (o - H0) \div CELL + 1 IN IF i <= Len(v.mem) THEN v.mem[i] ELSE UNKCELL
  ELSE IF o \in DOMAIN v.xm THEN v.xm[o] ELSE UNKCELL
RECURSIVE GrowMem(_, _)
GrowMem(m, n) == IF Len(m) >= n THEN m ELSE GrowMem(Append(m, UNKCELL), n)
PutCellAt(v, o, x) ==
  IF o >= H0 /\ o < HTOP
  THEN LET i == (o - H0) \div CELL + 1
       IN IF i <= Len(v.mem) THEN [v EXCEPT !.mem[i] = x]
          ELSE [v EXCEPT !.mem = Append(GrowMem(v.mem, i - 1), x)]
  ELSE IF o \in DOMAIN v.xm THEN [v EXCEPT !.xm[o] = x]
  ELSE IF o >= HTOP THEN [v EXCEPT !.xm = (o :> x) @@ v.xm]
  ELSE [v EXCEPT !.bad = "write below user dictionary"]
ByteAt(v, o) == CellAt(v, o - (o % CELL))[(o % CELL) + 1]
\* the names of the user's words are part of the abstract dictionary, not of mem
NameHit(v, o, n) ==
  IF v.dict = <<>> THEN FALSE
  ELSE IF o >= v.dict[Len(v.dict)].dfa THEN FALSE
  ELSE \E i \in 1..Len(v.dict) : o < v.dict[i].nfa + CELL + Len(v.dict[i].n) /\ o + n > v.dict[i].nfa
PutByte(v, o, b) ==
  LET q == o - (o % CELL)
      c == CellAt(v, q)
  IN IF NameHit(v, o, 1) THEN [v EXCEPT !.bad = "writes into a name"] ELSE PutCellAt(v, q, [c EXCEPT ![(o % CELL) + 1] = b])
RECURSIVE BytesR(_, _, _, _)
BytesR(v, o, n, acc) == IF n = 0 THEN acc ELSE BytesR(v, o + 1, n - 1, Append(acc, ByteAt(v, o)))
Bytes(v, o, n) == BytesR(v, o, n, <<>>)
RECURSIVE PutBytesR(_, _, _, _)
PutBytesR(v, o, bs, i) == IF i > Len(bs) THEN v ELSE PutBytesR(PutByte(v, o + i - 1, bs[i]), o, bs, i + 1)
PutBytes(v, o, bs) == PutBytesR(v, o, bs, 1)
Known(c) == \A i \in 1..NL : c[i] >= 0
RdCell(v, o) ==
  LET c == IF o % CELL = 0 THEN CellAt(v, o) ELSE Bytes(v, o, CELL)
  IN IF Known(c) THEN c ELSE UNK
WrCell(v, o, x) ==
  IF o % CELL = 0 THEN IF NameHit(v, o, CELL) THEN [v EXCEPT !.bad = "writes into a name"] ELSE PutCellAt(v, o, IF Num(x) THEN x ELSE UNKCELL)
  ELSE PutBytes(v, o, IF Num(x) THEN x ELSE UNKCELL)
BASE == 8       \* offset of the number base
AlignUp(o) == ((o + CELL - 1) \div CELL) * CELL

\* append a cell to the dictionary
Comp(v, x) ==
  IF v.here + CELL > HTOP - 2000 THEN [v EXCEPT !.bad = "data space exhausted"]
  ELSE [WrCell(v, v.here, x) EXCEPT !.here = v.here + CELL]
CompW(v, name) == Comp(v, FromInt(XT(name)))
CompXt(v, xt) == Comp(v, FromInt(xt))
CompLit(v, x) == Comp(CompW(v, "lit"), x)
CompStr(v, s) ==
  LET v1 == Comp(v, FromInt(Len(s)))
  IN [PutBytes(v1, v1.here, s) EXCEPT !.here = v1.here + Len(s)]
Align(v) == [v EXCEPT !.here = AlignUp(v.here)]

-----------------------------------------------------------------------------
(* Small state changes.                                                      *)
P(v, x)  == [v EXCEPT !.ds = Psh(v.ds, x)]
PN(v, n) == P(v, FromInt(n))
PF(v, b) == P(v, Flag(b))
D(v, k, xs) == [v EXCEPT !.ds = RepK(v.ds, k, xs)]
RP(v, x) == [v EXCEPT !.rs = Psh(v.rs, x)]
Bad(v, why) == [v EXCEPT !.bad = why]
Emit(v, bs) == [v EXCEPT !.out = v.out \o bs]

\* the time in microseconds
Micro_(v) == Add(v.tu, FromInt(1000 * v.now))

\* the instruction pointer as a cell, and back
MicroCell(k) == <<-100 - k, 0, 0, 0, 0, 0, 0, 0>>
IpCell(v) == IF v.ip >= 0 THEN AddrC(v, v.ip) ELSE IF v.ip <= -10 THEN MicroCell(-v.ip) ELSE v.ipr
SetIp(v, c) ==
  IF c[1] <= -100 THEN [v EXCEPT !.ip = c[1] + 100]
  ELSE IF ~Num(c) THEN [v EXCEPT !.ip = -1, !.ipr = c]
  ELSE LET o == OffOf(v, c)
       IN IF o >= 0 /\ o + CELL <= DSCap THEN [v EXCEPT !.ip = o] ELSE [v EXCEPT !.ip = -1, !.ipr = c]
Stopped(v) == v.ip = -1

\* current input text
HasText(v) == IF v.sid > 0 THEN TRUE ELSE v.hasin
Text_(v) == IF v.sid > 0 THEN v.lines[v.sid] ELSE v.inb

ReadToken(v) ==
  IF ~HasText(v) THEN [v EXCEPT !.tok = <<>>]
  ELSE LET r == ParseWord(Text_(v), v.si)
       IN [v EXCEPT !.tok = r[1], !.si = IF r[2] > v.si THEN r[2] ELSE v.si]

BaseNow(v) == v.xm[BASE]

TaskOf(v) == [ds |-> v.ds, rs |-> v.rs, cs |-> v.cs, fs |-> v.fs, ip |-> v.ip, ipr |-> v.ipr,
              wp |-> v.wp, awp |-> v.awp, comp |-> v.comp, inb |-> v.inb, hasin |-> v.hasin,
              si |-> v.si, sid |-> v.sid, files |-> v.files, srcs |-> v.srcs, lines |-> v.lines,
              rfz |-> v.rfz]
SwitchTo(v, i) ==
  IF i = v.cur THEN v
  ELSE LET k == v.t[i + 1]
       IN [v EXCEPT !.t[v.cur + 1] = TaskOf(v), !.cur = i,
             !.ds = k.ds, !.rs = k.rs, !.cs = k.cs, !.fs = k.fs, !.ip = k.ip, !.ipr = k.ipr,
             !.wp = k.wp, !.awp = k.awp, !.comp = k.comp, !.inb = k.inb, !.hasin = k.hasin,
             !.si = k.si, !.sid = k.sid, !.files = k.files, !.srcs = k.srcs, !.lines = k.lines,
             !.rfz = k.rfz]

ClearStacks(v) == [v EXCEPT !.ds = EmptyD, !.fs = EmptyF, !.cs = EmptyC]
Reset(v) == [v EXCEPT !.rs = EmptyR, !.sid = 0, !.inb = <<>>, !.awp = 0, !.si = 0,
                      !.comp = FALSE, !.err = 0, !.rfz = FALSE]

Exceptional(v) == v.err # 0

RECURSIVE Exec(_, _), Abort(_, _)

\* Raise an exception: clear data, float and control stacks, run the handler.
Abort(v, e) ==
  LET v1 == [ClearStacks(v) EXCEPT !.err = e, !.awp = v.wp]
      \* a handler that can itself raise exceptions is outside the specification
      quiet == IF v.handler < NB THEN BaseName[v.handler + 1] \in {"bye", "noop", "(abort)"}
               ELSE IF v.handler < NWords(v) THEN v.dict[v.handler - NB + 1].kind \in {"nest", "var"} ELSE TRUE
  IN IF ~quiet THEN Bad(v1, "exception handler outside the specification")
     ELSE IF v.handler < NWords(v) THEN Exec(v1, v.handler) ELSE v1

CheckStacks(v) ==
  IF Unsure(v.ds) \/ Unsure(v.fs) \/ Unsure(v.rs) THEN Bad(v, "unknown value on a stack guard")
  ELSE IF Overflown(v.ds) THEN Abort(v, E_SOVER)
  ELSE IF Underflown(v.ds) THEN Abort(v, E_SUNDER)
  ELSE IF Overflown(v.rs) THEN Abort(v, E_ROVER)
  ELSE IF Underflown(v.rs) THEN Abort(v, E_RUNDER)
  ELSE IF Overflown(v.cs) \/ Underflown(v.cs) THEN Abort(v, E_CTRL)
  ELSE IF Overflown(v.fs) THEN Abort(v, E_FOVER)
  ELSE IF Underflown(v.fs) THEN Abort(v, E_FUNDER)
  ELSE v

-----------------------------------------------------------------------------
(* Tokens: words, integers, floats.                                          *)
\* What a token that is not a word means: [k, c] with k in int, float, none
NumberOf(v, s) ==
  LET b == BaseNow(v)
      i == IntegerOf(s, ToInt(b))
      f == FloatSyntax(s)
  IN IF ~Num(b) \/ ~SmallInt(b) \/ ToInt(b) > 1000 THEN [k |-> "bad", c |-> Zero]
     ELSE IF i # <<>> THEN [k |-> "int", c |-> i]
     ELSE IF ~f.ok THEN [k |-> "none", c |-> Zero]
     ELSE IF Len(f.int) > 18 \/ Len(f.frac) > 18 \/ Len(f.exp) > 18 THEN [k |-> "bad", c |-> Zero]
     ELSE [k |-> "float", c |-> FOfLiteral(f)]
CompFloat(v, x) == Comp(Align(CompW(v, "flit")), x)
\* The compiler or interpreter meets a token that is not a word.
Number(v, tok) ==
  LET r == NumberOf(v, tok)
      w == [v EXCEPT !.err = 0]
  IN CASE r.k = "int" -> IF v.comp THEN CompLit(w, r.c) ELSE P(w, r.c)
       [] r.k = "float" -> IF v.comp THEN CompFloat(w, r.c) ELSE [w EXCEPT !.fs = Psh(w.fs, r.c)]
       [] r.k = "none" -> Abort(w, E_UNDEF)
       [] OTHER -> Bad(v, "number outside the specification")

\* Compilation semantics of a word that is not immediate.
HasDo(v) == LET e == Entries(v.cs) IN \E i \in 1..Len(e) : e[i][1] = KDO
CompileSem(v, xt) ==
  IF xt < NB /\ BaseName[xt + 1] = "leave" /\ ~HasDo(v) THEN Abort(v, E_CTRL) ELSE CompXt(v, xt)

CompileToken(v) ==
  LET x == Find(v, v.tok)
  IN IF x < 0 THEN Number(v, v.tok)
     ELSE IF IsImm(v, x) THEN Exec(v, x) ELSE CompileSem(v, x)
InterpretToken(v) ==
  LET x == Find(v, v.tok)
  IN IF x < 0 THEN Number(v, v.tok)
     ELSE IF IsCO(v, x) THEN Abort(v, E_COMPONLY) ELSE Exec(v, x)

-----------------------------------------------------------------------------
(* Defining words.                                                           *)
NewWord(nm, nfa, dfa, kind) ==
  [n |-> nm, nfa |-> nfa, dfa |-> dfa, kind |-> kind, doer |-> 0, im |-> FALSE, co |-> FALSE,
   hid |-> FALSE, tmin |-> 0, tmax |-> 0]
Define(v, kind) ==
  LET v1 == ReadToken(v)
      nm == Lower(v1.tok)
      v2 == [v1 EXCEPT !.tok = nm]
      v3 == IF Find(v2, nm) >= 0 THEN Emit(v2, S2B("Redefining ") \o nm) ELSE v2
      v4 == Align(CompStr(v3, nm))
  IN IF nm = <<>> THEN Abort(v2, E_EOF)
     ELSE IF Len(nm) > 2000 THEN Bad(v, "very long name")
     ELSE [v4 EXCEPT !.dict = Append(v4.dict, NewWord(nm, v3.here, v4.here, kind)),
                     !.last = NWords(v4)]
SetLast(v, f(_)) ==
  IF v.last < NB THEN Bad(v, "changes the flags of a system word")
  ELSE [v EXCEPT !.dict[v.last - NB + 1] = f(v.dict[v.last - NB + 1])]

-----------------------------------------------------------------------------
(* Words that only touch the data stack: what they remove and leave.         *)
StackWords == {"dup", "drop", "swap", "over", "nip", "rot", "-rot", "2dup", "2drop", "2swap",
  "2over", "0<", "0=", "not", "0>", "0<>", "=", "<", ">", "<>", "within", "invert", "and",
  "or", "xor", "lshift", "rshift", "1+", "1-", "+", "-", "*", "abs", "negate", "true",
  "false", "cell+", "cells", "char+", "aligned", "faligned", "float+", "floats", "depth", "pick",
  "max-n", "max-u", "base", "here", "me", "compiling?", "token-empty?", "error", "mtime",
  "utime", "source-id", "source-idx", "/", "mod", "/mod"}
LibStackWords == {"2*", "2/", "bl", "<=", ">=", "tuck", "max", "min", "?dup", "/string",
  "bounds", "r/o", "w/o", "r/w", "operator", "bin", "chars", "pad", ">char", "tib", "#tib", ">in",
  "load-line#", "src-stack", "source"}
AlignC(c) == LET e == Add(c, FromInt(CELL - 1)) IN [e EXCEPT ![1] = e[1] - (e[1] % CELL)]

StackWord(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)
      b == Pk(s, 2)
      c == Pk(s, 3)
      d == Pk(s, 4)
      e == Pk(s, 5)
      f == Pk(s, 6)
      N1 == Num(a)
      N2 == Num(a) /\ Num(b)
      N3 == N2 /\ Num(c)
      U1(x) == D(v, 1, <<IF N1 THEN x ELSE UNK>>)
      U2(x) == D(v, 2, <<IF N2 THEN x ELSE UNK>>)
      DivW(k, q(_)) == IF ~Num(a) THEN Bad(v, "division by an unknown value")
                    ELSE IF a = Zero THEN Abort(v, E_DIV)
                    ELSE D(v, 2, IF Num(b) THEN q(SDiv(b, a)) ELSE [i \in 1..k |-> UNK])
  IN CASE w = "dup" -> D(v, 1, <<a, a>>)
       [] w = "drop" -> D(v, 1, <<>>)
       [] w = "swap" -> D(v, 2, <<a, b>>)
       [] w = "over" -> D(v, 2, <<b, a, b>>)
       [] w = "nip" -> D(v, 2, <<a>>)
       [] w = "rot" -> D(v, 3, <<b, a, c>>)
       [] w = "-rot" -> D(v, 3, <<a, c, b>>)
       [] w = "2dup" -> D(v, 2, <<b, a, b, a>>)
       [] w = "2drop" -> D(v, 2, <<>>)
       [] w = "2swap" -> D(v, 4, <<b, a, d, c>>)
       [] w = "2over" -> D(v, 4, <<d, c, b, a, d, c>>)
       [] w = "pick" -> IF ~N1 THEN Bad(v, "pick of unknown depth")
                        ELSE D(v, 1, <<Slot(s, (s.n - 2 - a[1]) % RING)>>)
       [] w = "depth" -> PN(v, s.n)
       [] w = "0<" -> U1(Flag(IsNeg(a)))
       [] w \in {"0=", "not"} -> U1(Flag(a = Zero))
       [] w = "0>" -> U1(Flag(~IsNeg(a) /\ a # Zero))
       [] w = "0<>" -> U1(Flag(a # Zero))
       [] w = "=" -> U2(Flag(a = b))
       [] w = "<>" -> U2(Flag(a # b))
       [] w = "<" -> U2(Flag(SLt(b, a)))
       [] w = ">" -> U2(Flag(SLt(a, b)))
       [] w = "within" -> D(v, 3, <<IF N3 THEN Flag(SLe(b, c) /\ SLt(c, a)) ELSE UNK>>)
       [] w = "invert" -> U1(BNot(a))
       [] w = "and" -> U2(BAnd(a, b))
       [] w = "or" -> U2(BOr(a, b))
       [] w = "xor" -> U2(BXor(a, b))
       [] w = "lshift" -> U2(Shl(b, ShiftCount(a)))
       [] w = "rshift" -> U2(Shr(b, ShiftCount(a)))
       [] w = "1+" -> U1(Add(a, One))
       [] w = "char+" -> U1(Add(a, One))
       [] w = "1-" -> U1(Sub(a, One))
       [] w = "+" -> U2(Add(b, a))
       [] w = "-" -> U2(Sub(b, a))
       [] w = "*" -> U2(Mul(b, a))
       [] w = "/" -> DivW(1, LAMBDA q : <<q[1]>>)
       [] w = "mod" -> DivW(1, LAMBDA q : <<q[2]>>)
       [] w = "/mod" -> DivW(2, LAMBDA q : <<q[2], q[1]>>)
       [] w = "abs" -> U1(Abs(a))
       [] w = "negate" -> U1(Neg(a))
       [] w = "true" -> P(v, Ones)
       [] w = "false" -> P(v, Zero)
       [] w \in {"cell+", "float+"} -> U1(Add(a, FromInt(CELL)))
       [] w \in {"cells", "floats"} -> U1(Shl(a, 3))
       [] w \in {"aligned", "faligned"} -> U1(AlignC(a))
       [] w = "max-n" -> P(v, MaxC)
       [] w = "max-u" -> P(v, Ones)
       [] w = "base" -> P(v, AddrC(v, BASE))
       [] w = "here" -> P(v, AddrC(v, v.here))
       [] w = "me" -> PN(v, v.cur + 1)
       [] w = "compiling?" -> P(v, Flag(v.comp))
       [] w = "token-empty?" -> P(v, Flag(v.tok = <<>>))
       [] w = "error" -> PN(v, v.err)
       [] w = "mtime" -> P(v, Add(v.tm, FromInt(v.now)))
       [] w = "utime" -> P(v, Micro_(v))
       [] w = "source-id" -> PN(v, v.sid)
       [] w = "source-idx" -> PN(v, v.si)
       \* library words
       [] w = "2*" -> U1(Shl(a, 1))
       [] w = "2/" -> U1(SDiv(a, FromInt(2))[1])
       [] w = "bl" -> PN(v, 32)
       [] w = "<=" -> U2(Flag(SLe(b, a)))
       [] w = ">=" -> U2(Flag(SLe(a, b)))
       [] w = "tuck" -> D(v, 2, <<a, b, a>>)
       [] w = "max" -> U2(IF SLt(b, a) THEN a ELSE b)
       [] w = "min" -> U2(IF SLt(b, a) THEN b ELSE a)
       [] w = "?dup" -> IF ~N1 THEN Bad(v, "?dup of unknown") ELSE IF a = Zero THEN v ELSE P(v, a)
       [] w = "/string" -> D(v, 3, <<IF N3 THEN Add(c, a) ELSE UNK, IF N2 THEN Sub(b, a) ELSE UNK>>)
       [] w = "bounds" -> D(v, 2, <<IF N2 THEN Add(a, b) ELSE UNK, b>>)
       [] w = "r/o" -> PN(v, 0)
       [] w = "w/o" -> PN(v, 1)
       [] w = "r/w" -> PN(v, 2)
       [] w = "operator" -> PN(v, 0)
       [] w \in {"bin", "chars"} -> v
       [] w = "pad" -> P(v, AddrC(v, AlignUp(v.here + 512)))
       [] w = ">char" -> IF ~N1 THEN U1(a)
                         ELSE LET x == a[1] % 128 IN D(v, 1, <<FromInt(IF x < 32 \/ x = 127 THEN 95 ELSE x)>>)
       [] w \in {"tib", "#tib", ">in", "load-line#", "src-stack"} -> P(v, AddrC(v, BaseDfa(w)))
       [] w = "source" -> D(v, 0, <<AddrC(v, BaseDfa("tib")), RdCell(v, BaseDfa("#tib"))>>)
       [] OTHER -> Bad(v, "stack word")

-----------------------------------------------------------------------------
(* Floating-point words.                                                     *)
UnitWords == {"meter", "mm", "um", "deg", "rad", "hr", "minute", "sec", "msec", "usec", "mm/min", "mm/sec",
  "um/msec", "rpm", "hz", "1/sec"}
FloatWords == {"fdrop", "fdup", "fswap", "fnip", "fover", "frot", "fpick", "s>f", "f>s", "f+",
  "f-", "f*", "f/", "f~", "f0<", "f0=", "f<", "f>", "fmin", "fmax", "floor", "fround", "fceil",
  "fnegate", "fabs", "pi", "f@", "f!", "fsqrt", "fsin", "fcos", "ftan", "fasin", "facos",
  "fatan", "fatan2", "f**", "fsincos"} \cup UnitWords
\* a result known only within some units in the last place: see Real
FSym(op, a, b) ==
  IF FUnk(a) \/ FUnk(b) THEN ANYF
  ELSE IF op = 8 /\ (FIsZero(b) \/ a = FInt(1)) THEN FInt(1)
  ELSE IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN
  ELSE IF FIsInf(a) \/ FIsInf(b) THEN (IF op <= 5 THEN FNaN ELSE IF op >= 20 THEN a ELSE ANYF)
  ELSE IF op \in {4, 5} /\ FCmp(FAbs(a), FInt(1)) = 1 THEN FNaN
  ELSE <<-30, op>> \o a \o b
FloatWord(v, w) ==
  LET s == v.fs
      a == Pk(s, 1)
      b == Pk(s, 2)
      c == Pk(s, 3)
      F(k, xs) == [v EXCEPT !.fs = RepK(s, k, xs)]
      FlagC(r, t) == IF r = 9 THEN UNK ELSE Flag(t)
      ad == Pk(v.ds, 1)
      o == OffOf(v, AlignC(ad))
      ok == o >= 0 /\ o < DSCap
  IN CASE w = "fdrop" -> F(1, <<>>)
       [] w = "fdup" -> F(1, <<a, a>>)
       [] w = "fswap" -> F(2, <<a, b>>)
       [] w = "fnip" -> F(2, <<a>>)
       [] w = "fover" -> F(2, <<b, a, b>>)
       [] w = "frot" -> F(3, <<b, a, c>>)
       [] w = "fpick" -> IF ~Num(ad) THEN Bad(v, "fpick of unknown depth")
                         ELSE LET x == Slot(s, (s.n - 1 - ad[1]) % RING)
                              IN [D(v, 1, <<>>) EXCEPT !.fs = Psh(s, x)]
       [] w = "s>f" -> [D(v, 1, <<>>) EXCEPT !.fs = Psh(s, IF Num(ad) THEN FOfCell(ad) ELSE ANYF)]
       [] w = "f>s" -> LET x == FToCell(a) IN P(F(1, <<>>), IF x = <<>> THEN UNK ELSE x)
       [] w = "f+" -> F(2, <<FAdd(b, a)>>)
       [] w = "f-" -> F(2, <<FSub(b, a)>>)
       [] w = "f*" -> F(2, <<FMul(b, a)>>)
       [] w = "f/" -> F(2, <<FDiv(b, a)>>)
       [] w = "f0<" -> LET r == FCmp(a, FZero(0)) IN P(F(1, <<>>), FlagC(r, r = -1))
       [] w = "f0=" -> LET r == FCmp(a, FZero(0)) IN P(F(1, <<>>), FlagC(r, r = 0))
       [] w = "f<" -> LET r == FCmp(b, a) IN P(F(2, <<>>), FlagC(r, r = -1))
       [] w = "f>" -> LET r == FCmp(b, a) IN P(F(2, <<>>), FlagC(r, r = 1))
       [] w = "f~" ->
            LET z == FCmp(a, FZero(0))
                df == FAbs(FSub(c, b))
                r == IF z = 9 THEN 9
                     ELSE IF z = 1 THEN FCmp(df, a)
                     ELSE IF z = 0 THEN (IF FCmp(c, b) = 9 THEN 9 ELSE IF FCmp(c, b) = 0 THEN -1 ELSE 1)
                     ELSE FCmp(df, FMul(FAbs(a), FAdd(FAbs(c), FAbs(b))))
            IN P(F(3, <<>>), FlagC(r, r = -1))
       [] w \in {"fmin", "fmax"} ->
            LET r == FCmp(b, a)
            IN F(2, <<IF r = 9 \/ (r = 0 /\ a # b) THEN ANYF
                      ELSE IF r = 5 THEN (IF FIsNaN(a) THEN (IF FIsNaN(b) THEN FNaN ELSE b) ELSE a)
                      ELSE IF (r = -1) = (w = "fmin") THEN b ELSE a>>)
       [] w = "floor" -> F(1, <<FRoundTo(a, "floor")>>)
       [] w = "fceil" -> F(1, <<FRoundTo(a, "ceil")>>)
       [] w = "fround" -> F(1, <<FRoundTo(a, "round")>>)
       [] w = "fnegate" -> F(1, <<FNeg(a)>>)
       [] w = "fabs" -> F(1, <<FAbs(a)>>)
       [] w = "f@" -> IF ~Num(ad) THEN Bad(v, "unknown address")
                      ELSE IF ~ok THEN Abort(v, E_ADDR)
                      ELSE [D(v, 1, <<>>) EXCEPT !.fs = Psh(s, LET x == RdCell(v, o) IN IF Num(x) THEN x ELSE ANYF)]
       [] w = "f!" -> IF ~Num(ad) THEN Bad(v, "unknown address")
                      ELSE IF ~ok THEN Abort(v, E_ADDR)
                      ELSE WrCell([D(v, 1, <<>>) EXCEPT !.fs = Drp(s, 1)], o, a)
       [] w = "pi" -> F(0, <<FPi>>)
       [] w = "fsqrt" -> F(1, <<FSqrt(a)>>)
       [] w = "fsin" -> F(1, <<FSym(1, a, a)>>)
       [] w = "fcos" -> F(1, <<FSym(2, a, a)>>)
       [] w = "fsincos" -> F(1, <<FSym(1, a, a), FSym(2, a, a)>>)
       [] w = "ftan" -> F(1, <<FSym(3, a, a)>>)
       [] w = "fasin" -> F(1, <<FSym(4, a, a)>>)
       [] w = "facos" -> F(1, <<FSym(5, a, a)>>)
       [] w = "fatan" -> F(1, <<FSym(6, a, a)>>)
       [] w = "fatan2" -> F(2, <<FSym(7, b, a)>>)
       [] w = "f**" -> F(2, <<FSym(8, b, a)>>)
       [] w \in {"mm", "msec", "mm/sec", "um/msec"} -> F(1, <<FSym(20, a, a)>>)
       [] w \in {"um", "usec"} -> F(1, <<FSym(21, a, a)>>)
       [] w = "deg" -> F(1, <<FSym(22, a, a)>>)
       [] w = "hr" -> F(1, <<FSym(23, a, a)>>)
       [] w = "minute" -> F(1, <<FSym(24, a, a)>>)
       [] w = "mm/min" -> F(1, <<FSym(25, a, a)>>)
       [] w = "rpm" -> F(1, <<FSym(26, a, a)>>)
       [] w \in {"meter", "rad", "sec", "hz", "1/sec"} -> F(1, <<a>>)
       [] OTHER -> F(1, <<ANYF>>)

-----------------------------------------------------------------------------
(* Return stack and loops.                                                   *)
RWords == {"exit", ">r", "r>", "r@", "2>r", "2r>", "2r@", "unloop", "leave", "i", "j", "_do",
  "_qdo", "_loop", "_+loop", "branch", "0branch", "lit", "flit", "_s\""}
Skip(v) == IF v.ip <= -10 THEN [v EXCEPT !.ip = v.ip - 1] ELSE [v EXCEPT !.ip = v.ip + CELL]
\* branch through the cell at ip
Branch(v) == IF v.ip < 0 THEN Bad(v, "branch while stopped") ELSE
             LET x == RdCell(v, v.ip) IN IF Num(x) THEN SetIp(v, x) ELSE Bad(v, "branch to unknown")
RetWord(v, w) ==
  LET s == v.ds
      r == v.rs
      a == Pk(s, 1)
      b == Pk(s, 2)
      x == Pk(r, 1)
      y == Pk(r, 2)
      z == Pk(r, 3)
      Frame(v1) ==  \* enter a counted loop with limit b and index a
        [Skip(v1) EXCEPT !.ds = Drp(s, 2), !.rs = RepK(r, 0, <<IpCell(v1)>> \o LoopEnter(b, a))]
      Step(inc, v1) ==
        IF ~Num(x) \/ ~Num(inc) THEN Bad(v, "loop with unknown index")
        ELSE IF LoopLeaves(x, inc) THEN Skip([v1 EXCEPT !.rs = Drp(r, 3)])
        ELSE Branch([v1 EXCEPT !.rs = RepK(r, 1, <<LoopNext(x, inc)>>)])
  IN CASE w = "exit" -> SetIp([v EXCEPT !.rs = Drp(r, 1)], x)
       [] w = ">r" -> [v EXCEPT !.rs = Psh(r, a), !.ds = Drp(s, 1)]
       [] w = "r>" -> [v EXCEPT !.ds = Psh(s, x), !.rs = Drp(r, 1)]
       [] w = "r@" -> P(v, x)
       [] w = "2>r" -> [v EXCEPT !.rs = RepK(r, 0, <<b, a>>), !.ds = Drp(s, 2)]
       [] w = "2r>" -> [v EXCEPT !.ds = RepK(s, 0, <<y, x>>), !.rs = Drp(r, 2)]
       [] w = "2r@" -> D(v, 0, <<y, x>>)
       [] w = "unloop" -> [v EXCEPT !.rs = Drp(r, 3)]
       [] w = "leave" ->
            LET v1 == [v EXCEPT !.rs = Drp(r, 3)]
            IN IF Underflown(v1.rs) THEN Abort(v1, E_RUNDER)
               ELSE IF ~Num(z) \/ OffOf(v, z) < 0 THEN Bad(v, "leave without a loop frame")
               ELSE LET t == RdCell(v, OffOf(v, z))
                    IN IF Num(t) THEN SetIp(v1, t) ELSE Bad(v, "leave to unknown")
       [] w = "i" -> P(v, IF Num(x) /\ Num(y) THEN LoopIndex(y, x) ELSE UNK)
       [] w = "j" -> LET p == Pk(r, 4) q == Pk(r, 5)
                     IN P(v, IF Num(p) /\ Num(q) THEN LoopIndex(q, p) ELSE UNK)
       [] w = "_do" -> IF ~Num(a) \/ ~Num(b) THEN Bad(v, "loop bounds unknown") ELSE Frame(v)
       [] w = "_qdo" -> IF ~Num(a) \/ ~Num(b) THEN Bad(v, "loop bounds unknown")
                        ELSE IF a = b THEN Branch([v EXCEPT !.ds = Drp(s, 2)]) ELSE Frame(v)
       [] w = "_loop" -> Step(One, v)
       [] w = "_+loop" -> Step(a, [v EXCEPT !.ds = Drp(s, 1)])
       [] w = "branch" -> Branch(v)
       [] w = "0branch" -> IF ~Num(a) THEN Bad(v, "unknown flag")
                           ELSE LET v1 == [v EXCEPT !.ds = Drp(s, 1)]
                                IN IF a = Zero THEN Branch(v1) ELSE Skip(v1)
       [] w = "lit" -> P(Skip(v), RdCell(v, v.ip))
       [] w = "flit" -> LET o == AlignUp(v.ip)
                            x1 == RdCell(v, o)
                        IN [v EXCEPT !.fs = Psh(v.fs, IF Num(x1) THEN x1 ELSE ANYF), !.ip = o + CELL]
       [] w = "_s\"" -> LET n == ToNat(RdCell(v, v.ip))
                        IN [D(v, 0, <<AddrC(v, v.ip + CELL), FromInt(n)>>) EXCEPT
                              !.ip = AlignUp(v.ip + CELL + n)]
       [] OTHER -> Bad(v, "return word")

-----------------------------------------------------------------------------
(* Control structures: compile-time actions.  Control-stack entries are      *)
(* <<kind, address of the cell to patch or to branch back to>>.              *)
CtrlWords == {"if", "else", "then", "case", "of", "endof", "endcase", "begin", "while", "repeat",
  "until", "again", "do", "?do", "loop", "+loop", "recurse", "0labels", "label", "goto", "call",
  ";", "does>", "[']", "[char]", "postpone"}
PushC(v, k, o) == [v EXCEPT !.cs = Psh(v.cs, <<k, o>>)]
\* branch instruction with unresolved target; the control entry names its operand
Fwd(v, w) == Comp(CompW(v, w), Zero)
Patch(v, o) == WrCell(v, o, AddrC(v, v.here))
PopC(v) == [v EXCEPT !.cs = Drp(v.cs, 1)]
RECURSIVE EndCase(_)
EndCase(v) ==
  LET k == Pk(v.cs, 1)
  IN IF k[1] = KCASE THEN PopC(v)
     ELSE IF k[1] = KENDOF THEN EndCase(Patch(PopC(v), k[2]))
     ELSE Abort(v, E_CTRL)
\* patch the chain of forward references starting at operand offset p
RECURSIVE PatchChain(_, _)
PatchChain(v, p) ==
  LET nx == RdCell(v, p)
      v1 == Patch(v, p)
  IN IF nx = Zero THEN v1 ELSE PatchChain(v1, OffOf(v, nx))
LabelNo(c) == IF Num(c) /\ SmallNat(c) /\ ToNat(c) < LABELS /\ ToNat(c) > 0 THEN ToNat(c) ELSE 0
Goto(v, c) ==
  LET n == LabelNo(c)
  IN IF n = 0 THEN Abort(v, E_ARG)
     ELSE IF n \in v.fwd
     THEN LET v1 == Comp(CompW(v, "branch"), AddrC(v, v.lab[n])) IN [v1 EXCEPT !.lab[n] = v1.here - CELL]
     ELSE IF n \in v.res THEN Comp(CompW(v, "branch"), AddrC(v, v.lab[n]))
     ELSE LET v1 == Comp(CompW(v, "branch"), Zero)
          IN [v1 EXCEPT !.lab = (n :> (v1.here - CELL)) @@ v.lab,
                        !.fwd = v.fwd \cup {n}]
Label(v, c) ==
  LET n == LabelNo(c)
      Put(v1) == [v1 EXCEPT !.lab = (n :> v.here) @@ v.lab,
                            !.fwd = v.fwd \ {n}, !.res = v.res \cup {n}]
  IN IF n = 0 THEN Abort(v, E_ARG)
     ELSE IF n \in v.fwd THEN Put(PatchChain(v, v.lab[n]))
     ELSE IF n \in v.res THEN Abort(v, E_ARG)
     ELSE Put(v)
CtrlWord(v, w) ==
  LET k == Pk(v.cs, 1)
      k2 == Pk(v.cs, 2)
      a == Pk(v.ds, 1)
      Need(kinds, then(_)) == IF k[1] \in kinds THEN then(PopC(v)) ELSE Abort(v, E_CTRL)
      Here(v1) == v1.here
  IN CASE w = "if" -> LET v1 == Fwd(v, "0branch") IN PushC(v1, KIF, v1.here - CELL)
       [] w = "else" -> Need({KIF}, LAMBDA u :
              LET v1 == Fwd(u, "branch") IN Patch(PushC(v1, KELSE, v1.here - CELL), k[2]))
       [] w = "then" -> Need({KIF, KELSE}, LAMBDA u : Patch(u, k[2]))
       [] w = "case" -> PushC(v, KCASE, 0)
       [] w = "of" -> IF k[1] \notin {KCASE, KENDOF} THEN Abort(v, E_CTRL)
                      ELSE LET v1 == Fwd(CompW(CompW(v, "over"), "="), "0branch")
                           IN CompW(PushC(v1, KOF, v1.here - CELL), "drop")
       [] w = "endof" -> Need({KOF}, LAMBDA u :
              LET v1 == Fwd(u, "branch") IN Patch(PushC(v1, KENDOF, v1.here - CELL), k[2]))
       [] w = "endcase" -> EndCase(CompW(v, "drop"))
       [] w = "begin" -> PushC(v, KBEGIN, v.here)
       [] w = "while" -> LET v1 == Fwd(v, "0branch") IN PushC(v1, KWHILE, v1.here - CELL)
       [] w = "repeat" -> IF k[1] # KWHILE \/ k2[1] # KBEGIN THEN Abort(v, E_CTRL)
                          ELSE Patch(Comp(CompW(PopC(PopC(v)), "branch"), AddrC(v, k2[2])), k[2])
       [] w = "until" -> Need({KBEGIN}, LAMBDA u : Comp(CompW(u, "0branch"), AddrC(u, k[2])))
       [] w = "again" -> Need({KBEGIN}, LAMBDA u : Comp(CompW(u, "branch"), AddrC(u, k[2])))
       [] w \in {"do", "?do"} -> LET v1 == Fwd(v, IF w = "do" THEN "_do" ELSE "_qdo")
                                 IN PushC(v1, KDO, v1.here)
       [] w \in {"loop", "+loop"} -> Need({KDO}, LAMBDA u :
              Patch(Comp(CompW(u, IF w = "loop" THEN "_loop" ELSE "_+loop"), AddrC(u, k[2])), k[2] - CELL))
       [] w = "recurse" -> CompXt(v, NWords(v) - 1)
       [] w = "0labels" -> [v EXCEPT !.fwd = {}, !.res = {}]
       [] w = "label" -> Label(D(v, 1, <<>>), a)
       [] w = "goto" -> Goto(D(v, 1, <<>>), a)
       [] w = "call" -> Goto(D(CompW(CompLit(v, AddrC(v, v.here + 5 * CELL)), ">r"), 1, <<>>), a)
       [] w = ";" -> LET v1 == IF v.cs.n # 0 \/ v.fwd # {} THEN Abort(v, E_CTRL)
                               ELSE IF v.last < NB THEN CompW(v, "exit")     \* no system word is hidden
                               ELSE SetLast(CompW(v, "exit"), LAMBDA d : [d EXCEPT !.hid = FALSE])
                     IN [v1 EXCEPT !.comp = FALSE]
       [] w = "does>" -> Comp(D(Comp(D(P(v, FromInt(XT("_does"))), 1, <<>>), FromInt(XT("_does"))),
                                0, <<>>), FromInt(XT("exit")))
       [] w \in {"[']", "postpone"} ->
            LET v1 == ReadToken(v)
                x == Find(v1, v1.tok)
            IN IF v1.tok = <<>> THEN Abort(v1, E_EOF)
               ELSE IF x < 0 THEN Abort(v1, E_UNDEF)
               ELSE IF w = "[']" THEN CompLit(v1, FromInt(x))
               ELSE CompW(CompLit(v1, FromInt(x)), "_postpone")
       [] w = "[char]" -> LET v1 == ReadToken(v)
                          IN IF v1.tok = <<>> THEN Abort(v1, E_EOF)
                             ELSE LET c == FromInt(CodeAt(v1.tok, 0)) IN CompLit(D(P(v1, c), 1, <<>>), c)
       [] OTHER -> Bad(v, "control word")

-----------------------------------------------------------------------------
(* Data space words.                                                         *)
MemWords == {"@", "!", "c@", "c!", "move", ",", "compile,", "allot", "align", "falign", ">body",
  ">name", "2@", "2!", "+!", "2,", "c,", "fill", "count", "append", "on", "off", "?", "f,"}
RECURSIVE FillR(_, _, _, _)
FillR(v, o, n, b) == IF n = 0 THEN v ELSE FillR(PutByte(v, o, b), o + 1, n - 1, b)
MemWord(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)
      b == Pk(s, 2)
      c == Pk(s, 3)
      o == OffOf(v, a)
      o2 == OffOf(v, b)
      o3 == OffOf(v, c)
      okc(x) == x > 0 /\ x + CELL <= DSCap       \* a whole cell; the very first byte is reserved
      okb(x) == x > 0 /\ x < DSCap
      Unk == Bad(v, "unknown address or length")
      Fail == Abort(v, E_ADDR)
  IN CASE w = "@" -> IF ~Num(a) THEN Unk ELSE IF okc(o) THEN D(v, 1, <<RdCell(v, o)>>) ELSE Fail
       [] w = "!" -> IF ~Num(a) THEN Unk ELSE IF okc(o) THEN WrCell(D(v, 2, <<>>), o, b) ELSE Fail
       [] w = "c@" -> IF ~Num(a) THEN Unk ELSE IF o >= 0 /\ o < DSCap
                      THEN D(v, 1, <<LET x == ByteAt(v, o) IN IF x < 0 THEN UNK ELSE FromInt(x)>>)
                      ELSE Fail
       [] w = "c!" -> IF ~Num(a) THEN Unk ELSE IF okb(o) THEN PutByte(D(v, 2, <<>>), o, IF Num(b) THEN b[1] ELSE -2)
                      ELSE Fail
       [] w = "move" ->
            IF ~Num(a) \/ ~Num(b) \/ ~Num(c) THEN Unk
            ELSE IF IsNeg(a) \/ a = Zero THEN D(v, 3, <<>>)
            ELSE IF SmallNat(a) /\ o3 > 0 /\ o2 > 0 /\ o3 + ToNat(a) <= DSCap /\ o2 + ToNat(a) <= DSCap
            THEN (IF ToNat(a) > 2048 THEN Bad(v, "big move")
                  ELSE PutBytes(D(v, 3, <<>>), o2, Bytes(v, o3, ToNat(a))))
            ELSE Fail
       [] w \in {",", "compile,"} -> Comp(D(v, 1, <<>>), a)
       [] w = "allot" -> LET h == Add(AddrC(v, v.here), a)
                         IN IF ~Num(a) THEN Unk
                            ELSE IF OffOf(v, h) >= H0 /\ OffOf(v, h) < HTOP - 2000
                            THEN [D(v, 1, <<>>) EXCEPT !.here = OffOf(v, h)]
                            ELSE IF OffOf(v, h) >= 0 THEN Bad(v, "allot far away")
                            ELSE Abort(D(v, 1, <<>>), E_ADDR)
       [] w \in {"align", "falign"} -> Align(v)
       [] w \in {">body", ">name"} ->
            IF ~Num(a) THEN Unk
            ELSE IF SmallNat(a) /\ ToNat(a) < NWords(v)
            THEN D(v, 1, <<AddrC(v, IF w = ">body" THEN DfaOf(v, ToNat(a)) ELSE NfaOf(v, ToNat(a)))>>)
            ELSE Abort(D(v, 1, <<>>), E_ARG)
       \* library words
       [] w = "2@" -> IF ~Num(a) THEN Unk
                      ELSE IF okc(o) /\ okc(o + CELL) THEN D(v, 1, <<RdCell(v, o + CELL), RdCell(v, o)>>) ELSE Fail
       [] w = "2!" -> IF ~Num(a) THEN Unk
                      ELSE IF okc(o) /\ okc(o + CELL) THEN WrCell(WrCell(D(v, 3, <<>>), o, b), o + CELL, c)
                      ELSE IF okc(o) THEN Abort(WrCell(v, o, UNK), E_ADDR) ELSE Fail
       [] w = "+!" -> IF ~Num(a) THEN Unk
                      ELSE IF okc(o) THEN WrCell(D(v, 2, <<>>), o,
                             LET x == RdCell(v, o) IN IF Num(x) /\ Num(b) THEN Add(x, b) ELSE UNK)
                      ELSE Fail
       [] w = "?" -> IF ~Num(a) THEN Unk
                     ELSE IF ~okc(o) THEN Fail
                     ELSE IF BaseNow(v) \notin {FromInt(2), FromInt(8), FromInt(10), FromInt(16)}
                     THEN Abort(v, E_UNSUPP)
                     ELSE LET x == RdCell(v, o)
                          IN Emit(D(v, 1, <<>>), (IF Num(x) THEN Numeral(x, ToNat(BaseNow(v))) ELSE <<WILD>>) \o <<32>>)
       [] w = "2," -> Comp(Comp(D(v, 2, <<>>), a), b)
       [] w = "c," -> [PutByte(D(v, 1, <<>>), v.here, IF Num(a) THEN a[1] ELSE -2) EXCEPT !.here = v.here + 1]
       [] w = "f," -> [WrCell(v, AlignUp(v.here), Pk(v.fs, 1)) EXCEPT !.here = v.here + CELL, !.fs = Drp(v.fs, 1)]
       [] w = "fill" ->
            IF ~Num(b) \/ ~Num(c) THEN Unk
            ELSE IF IsNeg(b) \/ b = Zero THEN D(v, 3, <<>>)
            ELSE IF okb(o3) /\ SmallNat(b) /\ o3 + ToNat(b) <= DSCap
            THEN (IF ToNat(b) > 2048 THEN Bad(v, "big fill")
                  ELSE FillR(D(v, 3, <<>>), o3, ToNat(b), IF Num(a) THEN a[1] ELSE -2))
            ELSE IF okb(o3)
            THEN (IF DSCap - o3 > 2048 THEN Bad(v, "big fill")
                  ELSE Abort(FillR(v, o3, DSCap - o3, -2), E_ADDR))
            ELSE Fail
       [] w = "count" -> IF ~Num(a) THEN Unk
                         ELSE IF o >= 0 /\ o < DSCap
                         THEN D(v, 1, <<Add(a, One), LET x == ByteAt(v, o) IN IF x < 0 THEN UNK ELSE FromInt(x)>>)
                         ELSE Fail
       [] w = "append" ->   \* ( c-addr1 u c-addr2 -- ): to the counted string at c-addr2
            LET n == ByteAt(v, o)
                n1 == ToNat(b)
            IN IF ~Num(a) \/ ~Num(b) \/ ~Num(c) THEN Unk
               ELSE IF ~okb(o) \/ ~SmallNat(b) \/ n1 > 255 \/ n < 0 THEN Bad(v, "append arguments")
               ELSE IF ~okb(o3) \/ o3 + n1 > DSCap \/ o + 1 + n + n1 > DSCap THEN Bad(v, "append arguments")
               ELSE PutByte(PutBytes(D(v, 3, <<>>), o + 1 + n, Bytes(v, o3, n1)), o, (n + n1) % 256)
       [] w \in {"on", "off"} -> IF ~Num(a) THEN Unk
                                 ELSE IF okc(o) THEN WrCell(D(v, 1, <<>>), o, Flag(w = "on")) ELSE Fail
       [] OTHER -> Bad(v, "memory word")

-----------------------------------------------------------------------------
(* Library words that call back into the interpreter, wait, or are entered   *)
(* by other tasks are microcode: they use the return stack like any colon    *)
(* definition.  <<"br", k>> and <<"0br", k>> jump to the k-th instruction of *)
(* the same word.                                                            *)
W(n) == <<"w", n>>
Micros == <<
  <<"nod", << W("pause"), <<"br", 1>> >> >>,
  <<"halt", << W("activate"), <<"call", "nod">>, W("exit") >> >>,
  <<"stop", << W("me"), W("suspend"), W("pause"), W("exit") >> >>,
  <<"get", << W("dup"), W("@"), <<"0br", 6>>, W("pause"), <<"br", 1>>, W("me"), W("swap"), W("!"), W("exit") >> >>,
  <<"ms", << W("mtime"), W("mtime"), W("over"), W("-"), <<"lit", 2>>, W("pick"), W("<"), <<"0br", 11>>,
             W("pause"), <<"br", 2>>, W("2drop"), W("exit") >> >>,
  <<"xtime", << W("2>r"), W("r@"), W("execute"), W("2r>"), W("(xtime)"), W("exit") >> >>,
  <<"evaluate-input", << W("parse-word"), W("token-empty?"), W("not"), <<"0br", 11>>, W("compiling?"),
             <<"0br", 9>>, W("compile-token"), <<"br", 10>>, W("interpret-token"), <<"stacks", 1>>, W("exit") >> >>,
  <<"load-source-file", << W("source-id"), W("load-line"), <<"0br", 11>>, W("drop"), <<"lit", 0>>, W("source-idx!"),
             <<"call", "evaluate-input">>, W("flush-output"), <<"line+", 0>>, <<"br", 1>>, W("drop"), W("exit") >> >>,
  <<"included", << W("2dup"), <<"lit", 0>>, W("open-file"), W("0="), <<"0br", 15>>, W("save-source"), W("open-source"),
             W("source-id!"), W("["), <<"line1", 0>>, <<"call", "load-source-file">>, W("source-id"),
             <<"close", 0>>, W("exit"), W("abort"), W("exit") >> >>,
  <<"include", << <<"lit", 32>>, W("word"), W("count"), <<"call", "included">>, W("exit") >> >>,
  <<"\\\\", << W("source-id"), W("dup"), W("load-line"), <<"0br", 7>>, W("drop"), <<"br", 2>>, W("2drop"), W("exit") >> >>,
  <<"return", << W("exit") >> >>,
  \* rtf.fth
  <<"quit", << W("reset"), W("me"), <<"lit", 1>>, W("="), W("not"), <<"0br", 9>>, <<"call", "stop">>, <<"br", 2>>,
             <<"nosrc", 0>>, W("receive"), <<"out", " ">>, <<"call", "evaluate-input">>, W("compiling?"), W("not"),
             <<"0br", 17>>, <<"out", " ok">>, <<"lit", 13>>, W("emit"), W("flush-output"), <<"br", 10>> >> >>,
  <<"(abort)", << W("0stacks"), W("error"), <<"lit", -2>>, <<"lit", 1>>, W("within"), W("not"), <<"0br", 26>>,
             W(".token"), <<"out", " ">>, W(".error"), W("source-id"), <<"0br", 22>>, <<"out", " (">>, W("source-id"),
             W(".source-path"), <<"out", ":">>, <<"lineno", 0>>, <<"out", ": ">>, W("source-id"), W(".source-line"),
             <<"out", ")">>, <<"out", ", ">>, W(".backtrace"), <<"lit", 13>>, W("emit"), W("flush-output"),
             W("0error"), <<"call", "quit">>, W("exit") >> >>,
  <<"cold", << <<"lit", 2>>, <<"call", "halt">>, <<"lit", 3>>, <<"call", "halt">>, <<"lit", 4>>, <<"call", "halt">>,
             <<"lit", 5>>, <<"call", "halt">>, <<"xt", "(abort)">>, W("handler!"), <<"call", "evaluate-input">>,
             <<"call", "quit">>, W("exit") >> >> >>
MBASE == 10
RECURSIVE MicroStart(_)
MicroStart(i) == IF i = 1 THEN MBASE + 1 ELSE MicroStart(i - 1) + Len(Micros[i - 1][2])
MicroEntry == Force([n \in {Micros[i][1] : i \in 1..Len(Micros)} |->
                 MicroStart(CHOOSE i \in 1..Len(Micros) : Micros[i][1] = n)])
RECURSIVE MicroFlat(_, _)
MicroFlat(i, acc) ==
  IF i > Len(Micros) THEN acc
  ELSE LET b == MicroStart(i)
       IN MicroFlat(i + 1, acc \o [j \in 1..Len(Micros[i][2]) |->
            LET x == Micros[i][2][j]
            IN CASE x[1] \in {"br", "0br"} -> [op |-> x[1], n |-> b + x[2] - 1, s |-> ""]
                 [] x[1] = "call" -> [op |-> "call", n |-> MicroEntry[x[2]], s |-> ""]
                 [] x[1] \in {"w", "out", "xt"} -> [op |-> x[1], n |-> 0, s |-> x[2]]
                 [] x[1] = "stacks" -> [op |-> "stacks", n |-> b, s |-> ""]
                 [] OTHER -> [op |-> x[1], n |-> x[2], s |-> ""]])
MicroCode == Force(MicroFlat(1, <<>>))
LineOff == BaseDfa("load-line#")

-----------------------------------------------------------------------------
(* Output.                                                                   *)
OutWords == {"emit", "type", "s\"", ".\"", ".(", ".r", "f.r", "flush-output", ".", "f.", "cr",
  "space", "spaces", "h.", "h.r", ".s", "words", ".word", ".token", ".error", ".xtime", ".input",
  "flush-to-err", ".backtrace", ".memory", ".source-path", ".source-line"}
PrintableBase(c) == c \in {FromInt(2), FromInt(8), FromInt(10), FromInt(16)}
\* numeral of x in base cell bc, right-justified to the width in cell wc
NumOut(x, bc, wc) ==
  IF ~Num(x) THEN <<WILD>>
  ELSE PadLeft(Numeral(x, ToNat(bc)), IF IsNeg(wc) THEN 0 ELSE ToNat(wc))
DotR(v, x, wc, bc, k) ==   \* k operands to drop
  IF ~Num(wc) \/ (~IsNeg(wc) /\ (~SmallNat(wc) \/ ToNat(wc) > 1000)) THEN Bad(v, "field width")
  ELSE IF PrintableBase(bc) THEN Emit(D(v, k, <<>>), NumOut(x, bc, wc))
  ELSE Abort(D(v, k, <<>>), E_UNSUPP)
FloatOut(f, k) == LET x == IF Num(f) THEN FFixed(f, k) ELSE <<>> IN IF x = <<>> THEN <<WILD>> ELSE x
Flush(v) == IF v.out = <<>> THEN v
            ELSE [v EXCEPT !.std = v.std \o v.out \o <<10>>, !.out = <<>>]
RECURSIVE DotSR(_, _, _)
DotSR(e, i, acc) == IF i > Len(e) THEN acc
  ELSE DotSR(e, i + 1, acc \o (IF Num(e[i]) THEN Numeral(e[i], 10) ELSE <<WILD>>) \o <<32>>)
RECURSIVE DotFR(_, _, _)
DotFR(e, i, acc) == IF i > Len(e) THEN acc ELSE DotFR(e, i + 1, acc \o FloatOut(e[i], 7) \o <<32>>)
RECURSIVE WordsR(_, _, _)
WordsR(v, xt, acc) ==
  IF xt = 0 THEN acc
  ELSE WordsR(v, xt - 1, IF xt >= NB /\ v.dict[xt - NB + 1].hid THEN acc ELSE acc \o NameOf(v, xt) \o <<32>>)
RECURSIVE XtimeR(_, _, _)
XtimeR(v, xt, acc) ==
  IF xt < NB THEN acc
  ELSE LET w == v.dict[xt - NB + 1]
       IN XtimeR(v, xt - 1,
            IF w.tmin = 0 THEN acc
            ELSE acc \o (IF acc = <<>> THEN <<>> ELSE <<124>>) \o w.n \o <<124>>
                 \o UNumeral(FromInt(w.tmin), 10) \o <<44>> \o UNumeral(FromInt(w.tmax), 10))
\* s" : the text from one character behind the current position up to the quote
Quoted(v) ==
  LET t == Text_(v)
      p == IF v.si + 1 > Len(t) THEN Len(t) ELSE v.si + 1
      r == ParseDelim(t, p, 34)
  IN [Align(CompStr(CompW(v, "_s\""), r[1])) EXCEPT !.si = r[2]]
\* .backtrace : the words in which return addresses lie
MicroName(k) ==
  LET i == CHOOSE i \in 1..Len(Micros) : MicroEntry[Micros[i][1]] <= k /\ k < MicroEntry[Micros[i][1]] + Len(Micros[i][2])
  IN IF Micros[i][1] = "return" THEN "defer" ELSE Micros[i][1]
RECURSIVE Latest(_, _, _)
Latest(v, o, i) == IF i = 0 \/ NfaOf(v, i) <= o THEN i ELSE Latest(v, o, i - 1)
CodeName(v, c) ==
  IF c[1] <= -100 THEN S2B(MicroName(-100 - c[1])) \o <<32>>
  ELSE IF ~Num(c) THEN <<WILD>>
  ELSE IF ULt(c, AddrC(v, BaseWords[1].nfa)) THEN S2B("unknown(") \o UNumeral(c, 16) \o S2B(") ")
  ELSE LET o == OffOf(v, c)
       IN NameOf(v, Latest(v, IF o < 0 THEN DSCap + 1 ELSE o, NWords(v) - 1)) \o <<32>>
RECURSIVE TraceR(_, _, _, _)
TraceR(v, e, i, acc) == IF i > Len(e) THEN acc ELSE TraceR(v, e, i + 1, acc \o CodeName(v, e[i]))
Sorted(v) == \A i \in 1..(Len(v.dict) - 1) : v.dict[i].nfa < v.dict[i + 1].nfa
OutWord(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)
      b == Pk(s, 2)
      o2 == OffOf(v, b)
      ten == FromInt(10)
  IN CASE w = "emit" -> Emit(D(v, 1, <<>>), IF Num(a) THEN Enc256(a[1]) ELSE <<WILD>>)
       [] w = "type" ->
            IF Underflown(Drp(s, 2)) THEN Abort(D(v, 2, <<>>), E_SUNDER)
            ELSE IF ~Num(a) THEN Bad(v, "type of unknown length")
            ELSE IF a = Zero THEN D(v, 2, <<>>)
            ELSE IF ~Num(b) THEN Bad(v, "type of unknown address")
            ELSE IF SmallNat(a) /\ Inside(o2, ToNat(a)) /\ o2 >= 0
            THEN (IF ToNat(a) > 4000 THEN Bad(v, "long type")
                  ELSE Emit(D(v, 2, <<>>), [i \in 1..ToNat(a) |->
                              LET x == ByteAt(v, o2 + i - 1) IN IF x < 0 THEN WILD ELSE x]))
            ELSE Abort(D(v, 2, <<>>), E_ADDR)
       [] w = "s\"" -> IF HasText(v) THEN Quoted(v) ELSE Bad(v, "no input")
       [] w = ".\"" -> IF HasText(v) THEN CompW(Quoted(v), "type") ELSE Bad(v, "no input")
       [] w = ".(" -> IF ~HasText(v) THEN Bad(v, "no input")
                      ELSE LET v1 == D(PN(v, 41), 1, <<>>)
                               r == ParseDelim(Text_(v), v.si, 41)
                           IN Emit([v1 EXCEPT !.tok = r[1], !.si = r[2]], r[1])
       [] w = ".r" -> DotR(v, b, a, BaseNow(v), 2)
       [] w = "." -> LET v1 == DotR(v, a, Zero, BaseNow(v), 1)
                     IN IF v1.err = E_UNSUPP /\ ~PrintableBase(BaseNow(v)) THEN v1 ELSE Emit(v1, <<32>>)
       [] w = "h." -> Emit(DotR(v, a, Zero, FromInt(16), 1), <<32>>)
       [] w = "h.r" -> DotR(v, b, a, FromInt(16), 2)
       [] w = "f.r" -> LET k == IF SmallNat(a) /\ ToNat(a) <= 16 THEN ToNat(a) ELSE 17
                           f == Pk(v.fs, 1)
                           x == FloatOut(f, k)
                       IN IF ~Num(a) \/ ~Num(b) \/ (~IsNeg(b) /\ (~SmallNat(b) \/ ToNat(b) > 1000)) THEN Bad(v, "field width")
                          ELSE Emit([D(v, 2, <<>>) EXCEPT !.fs = Drp(v.fs, 1)],
                                    IF x = <<WILD>> \/ IsNeg(b) THEN x ELSE PadLeft(x, ToNat(b)))
       [] w = "f." -> Emit([v EXCEPT !.fs = Drp(v.fs, 1)], FloatOut(Pk(v.fs, 1), 7) \o <<32>>)
       [] w = "cr" -> Emit(v, <<10>>)
       [] w = "space" -> Emit(v, <<32>>)
       [] w = "spaces" -> IF ~Num(a) \/ (~IsNeg(a) /\ (~SmallNat(a) \/ ToNat(a) > 1000)) THEN Bad(v, "many spaces")
                          ELSE Emit(D(v, 1, <<>>), IF IsNeg(a) THEN <<>> ELSE Blanks(ToNat(a)))
       [] w = "flush-output" -> Flush(v)
       [] w = "flush-to-err" -> [v EXCEPT !.out = <<>>]
       [] w = ".s" -> LET e == Entries(s)
                          f == Entries(v.fs)
                      IN Emit(v, DotSR(e, 1, <<>>)
                                 \o (IF f = <<>> THEN <<>>
                                     ELSE (IF e = <<>> THEN <<>> ELSE <<32>>) \o S2B("F: ") \o DotFR(f, 1, <<>>)))
       [] w = "words" -> Emit(v, WordsR(v, NWords(v) - 1, <<>>))
       [] w = ".word" -> IF ~Num(a) THEN Bad(v, "unknown xt")
                         ELSE Emit(D(v, 1, <<>>),
                                   IF SmallNat(a) /\ ToNat(a) < NWords(v) THEN NameOf(v, ToNat(a)) \o <<32>>
                                   ELSE S2B("unknown "))
       [] w = ".token" -> Emit(v, v.tok)
       [] w = ".error" -> IF v.err = 0 THEN v ELSE Emit(v, S2B(Describe(v.err)))
       [] w = ".xtime" -> Emit(v, XtimeR(v, NWords(v) - 1, <<>>))
       [] w = ".input" -> IF HasText(v) THEN Emit(v, Text_(v)) ELSE v
       [] w = ".backtrace" ->
            LET n == v.awp
            IN Emit(v, S2B("backtrace: ") \o
                 (IF v.rfz \/ ~Sorted(v) \/ Overflown(v.rs) \/ Underflown(v.rs) THEN <<WILD>>
                  ELSE TraceR(v, Entries(v.rs), 1, <<>>)
                       \o (IF n < 0 THEN <<WILD>> ELSE IF n = 0 \/ n >= NWords(v) THEN <<>> ELSE NameOf(v, n) \o <<32>>)
                       \o CodeName(v, IpCell(v))))
       [] w = ".memory" -> Emit(v, S2B("data space capacity: ") \o UNumeral(FromInt(DSCap), 10)
                                   \o S2B(", used: ") \o UNumeral(FromInt(v.here), 10)
                                   \o S2B(", start: 0x") \o UNumeral(v.start, 16)
                                   \o S2B(", limit: 0x") \o UNumeral(AddrC(v, DSCap), 16)
                                   \o S2B(", here: 0x") \o UNumeral(AddrC(v, v.here), 16) \o <<10>>)
       [] w \in {".source-path", ".source-line"} ->
            IF ~Num(a) THEN Bad(v, "unknown source")
            ELSE IF ~SmallNat(a) \/ ToNat(a) < 1 \/ ToNat(a) > Len(v.srcs) THEN Abort(D(v, 1, <<>>), E_ARG)
            ELSE IF w = ".source-line" THEN Emit(D(v, 1, <<>>), v.lines[ToNat(a)])
            ELSE IF v.srcs[ToNat(a)].open THEN Emit(D(v, 1, <<>>), v.srcs[ToNat(a)].path)
            ELSE Abort(D(v, 1, <<>>), E_ARG)
       [] OTHER -> Bad(v, "output word")

-----------------------------------------------------------------------------
(* Parsing and the text interpreter's own words.                             *)
ParseWords == {"parse-word", "char", "_skip", "parse", "(", "\\", "word", "!token", "'", "[", "]",
  "compile-token", "interpret-token", "execute", "_postpone", "_does", "immediate",
  "compile-only", "?stacks", "handler!", "0error", "0stacks", "reset", "abort", "bye", "noop",
  "source-id!", "source-idx!", "decimal", "hex", "(xtime)", "0xtime"}
NoInput(v) == Bad(v, "no input")
ParseTo(v, d) == LET r == ParseDelim(Text_(v), v.si, d) IN [v EXCEPT !.tok = r[1], !.si = r[2]]
ParseWord_(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)
      b == Pk(s, 2)
      \* code point of a delimiter cell; -5 if no character can match
      cp == IF Num(a) /\ SmallNat(a) THEN ToNat(a) ELSE -5
  IN CASE w = "parse-word" -> ReadToken(v)
       [] w = "char" -> LET v1 == ReadToken(v)
                        IN IF v1.tok = <<>> THEN Abort(v1, E_EOF) ELSE PN(v1, CodeAt(v1.tok, 0))
       [] w = "parse" -> IF ~HasText(v) THEN NoInput(v) ELSE ParseTo(D(v, 1, <<>>), cp)
       [] w = "(" -> IF ~HasText(v) THEN NoInput(v) ELSE ParseTo(D(PN(v, 41), 1, <<>>), 41)
       [] w = "\\" -> IF ~HasText(v) THEN NoInput(v) ELSE ParseTo(D(PN(v, 10), 1, <<>>), 10)
       [] w = "_skip" -> IF ~HasText(v) THEN NoInput(v)
                         ELSE [D(v, 1, <<>>) EXCEPT !.si = SkipChar(Text_(v), v.si, cp)]
       [] w = "word" ->   \* ( char -- c-addr ): skip, parse, store counted at here
            IF ~HasText(v) THEN NoInput(v)
            ELSE LET p == SkipChar(Text_(v), v.si, cp)
                     r == ParseDelim(Text_(v), p, cp)
                     t == SubSeq(r[1], 1, IF Len(r[1]) > 255 THEN 255 ELSE Len(r[1]))
                 IN IF v.here + 300 > DSCap THEN Bad(v, "data space exhausted")
                    ELSE D([PutBytes(v, v.here, <<Len(t)>> \o t) EXCEPT !.si = r[2], !.tok = <<>>], 1,
                           <<AddrC(v, v.here)>>)
       [] w = "!token" ->
            LET o == OffOf(v, a)
                t == SubSeq(v.tok, 1, IF Len(v.tok) > 255 THEN 255 ELSE Len(v.tok))
            IN IF ~Num(a) THEN Bad(v, "unknown address")
               ELSE IF o >= 0 /\ o + Len(t) + CELL <= DSCap
               THEN PutBytes([D(v, 1, <<>>) EXCEPT !.tok = <<>>], o, <<Len(t)>> \o t)
               ELSE IF o >= 0 /\ o + Len(t) < DSCap THEN Bad(v, "!token near the end")
               ELSE Abort(D(v, 1, <<>>), E_ADDR)
       [] w = "'" -> LET v1 == ReadToken(v)
                         x == Find(v1, v1.tok)
                     IN IF v1.tok = <<>> THEN Abort(v1, E_EOF)
                        ELSE IF x < 0 THEN Abort(v1, E_UNDEF) ELSE PN(v1, x)
       [] w = "[" -> [v EXCEPT !.comp = FALSE]
       [] w = "]" -> [v EXCEPT !.comp = TRUE]
       [] w = "compile-token" -> CompileToken(v)
       [] w = "interpret-token" -> InterpretToken(v)
       [] w = "execute" -> IF ~Num(a) THEN Bad(v, "unknown xt")
                           ELSE IF SmallNat(a) THEN Exec(D(v, 1, <<>>), ToNat(a))
                           ELSE Abort(D(v, 1, <<>>), E_UNSUPP)
       [] w = "_postpone" -> IF ~Num(a) THEN Bad(v, "unknown xt")
                             ELSE IF ~SmallNat(a) \/ ToNat(a) >= NWords(v) THEN Abort(D(v, 1, <<>>), E_UNSUPP)
                             ELSE IF IsImm(v, ToNat(a)) THEN Exec(D(v, 1, <<>>), ToNat(a))
                             ELSE CompileSem(D(v, 1, <<>>), ToNat(a))
       [] w = "_does" -> IF v.ip < 0 \/ v.last < NB THEN Bad(v, "does> on a system word")
                         ELSE LET d == v.ip + CELL
                              IN SetLast(Comp(v, AddrC(v, d)), LAMBDA k : [k EXCEPT !.kind = "does", !.doer = d])
       [] w = "immediate" -> SetLast(v, LAMBDA k : [k EXCEPT !.im = TRUE])
       [] w = "compile-only" -> SetLast(v, LAMBDA k : [k EXCEPT !.co = TRUE])
       [] w = "?stacks" -> CheckStacks(v)
       [] w = "handler!" -> IF Num(a) /\ SmallNat(a) THEN [D(v, 1, <<>>) EXCEPT !.handler = ToNat(a)]
                            ELSE IF Num(a) THEN [D(v, 1, <<>>) EXCEPT !.handler = 1000000000]
                            ELSE Bad(v, "unknown handler")
       [] w = "0error" -> [v EXCEPT !.err = 0]
       [] w = "0stacks" -> ClearStacks(v)
       [] w = "reset" -> Reset(v)
       [] w = "abort" -> Abort(v, E_ABORT)
       [] w = "bye" -> [v EXCEPT !.ip = -1, !.ipr = Zero]
       [] w = "noop" -> v
       [] w = "source-idx!" -> IF Num(a) /\ SmallNat(a) THEN [D(v, 1, <<>>) EXCEPT !.si = ToNat(a)]
                               ELSE IF Num(a) THEN [D(v, 1, <<>>) EXCEPT !.si = 100000000]
                               ELSE Bad(v, "unknown source index")
       [] w = "source-id!" ->
            IF ~Num(a) THEN Bad(v, "unknown source")
            ELSE IF a = Zero THEN [D(v, 1, <<>>) EXCEPT !.sid = 0]
            ELSE IF SmallNat(a) /\ ToNat(a) <= Len(v.srcs) /\ v.srcs[ToNat(a)].open
            THEN [D(v, 1, <<>>) EXCEPT !.sid = ToNat(a)]
            ELSE Abort(D(v, 1, <<>>), E_ARG)
       [] w = "decimal" -> WrCell(v, BASE, FromInt(10))
       [] w = "hex" -> WrCell(v, BASE, FromInt(16))
       [] w = "(xtime)" ->
            IF ~Num(a) \/ ~Num(b) THEN Bad(v, "unknown xt")
            ELSE IF ~SmallNat(a) \/ ToNat(a) >= NWords(v) THEN Abort(D(v, 2, <<>>), E_UNSUPP)
            ELSE IF ULt(Micro_(v), b) \/ ~SmallNat(Sub(Micro_(v), b)) THEN Bad(v, "start time in the future")
            ELSE IF ToNat(a) < NB THEN Bad(v, "xtime of a system word")
            ELSE LET i == ToNat(a) - NB + 1
                     d == ToNat(Sub(Micro_(v), b))
                     k == v.dict[i]
                 IN [D(v, 2, <<>>) EXCEPT
                       !.dict[i] = [k EXCEPT !.tmin = IF k.tmin # 0 /\ k.tmin < d THEN k.tmin ELSE d,
                                             !.tmax = IF k.tmax > d THEN k.tmax ELSE d]]
       [] w = "0xtime" -> [v EXCEPT !.dict = [i \in 1..Len(v.dict) |->
                              IF v.dict[i].tmin > 0 THEN [v.dict[i] EXCEPT !.tmin = 0, !.tmax = 0] ELSE v.dict[i]]]
       [] OTHER -> Bad(v, "parsing word")

-----------------------------------------------------------------------------
(* Defining words.                                                           *)
DefWords == {":", "create", "constant", "variable", "2constant", "2variable", "fconstant",
  "fvariable", "+field", "defer", "marker", "defer@", "defer!", "literal", "2literal", "fliteral"}
RECURSIVE CompN(_, _, _)
CompN(v, x, n) == IF n = 0 THEN v ELSE CompN(Comp(v, x), x, n - 1)
DefWord(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)
      b == Pk(s, 2)
      f == Pk(v.fs, 1)
      With(v1, kind, g(_)) == LET d == Define(v1, kind) IN IF d.err # 0 THEN d ELSE g(d)
      Slot2(c, g(_)) == IF ~Num(c) THEN Bad(v, "unknown xt")
                        ELSE IF SmallNat(c) /\ ToNat(c) < NWords(v) THEN g(DfaOf(v, ToNat(c)))
                        ELSE Abort(v, E_ARG)
  IN CASE w = ":" -> With(v, "nest", LAMBDA d : [SetLast(d, LAMBDA k : [k EXCEPT !.hid = TRUE]) EXCEPT !.comp = TRUE])
       [] w = "create" -> Define(v, "var")
       [] w = "constant" -> With(D(v, 1, <<>>), "const", LAMBDA d : Comp(d, a))
       [] w = "fconstant" -> With([v EXCEPT !.fs = Drp(v.fs, 1)], "fconst", LAMBDA d : Comp(Align(d), f))
       [] w = "variable" -> With(v, "var", LAMBDA d : Comp(d, Zero))
       [] w = "2constant" -> With(v, "2const", LAMBDA d : Comp(Comp(Comp(D(d, 2, <<>>), a), b), UNK))
       [] w = "2variable" -> With(v, "var", LAMBDA d : Comp(Comp(d, Zero), Zero))
       [] w = "fvariable" -> With(v, "var", LAMBDA d : Comp(Comp(d, FZero(0)), UNK))
       [] w = "+field" -> With(v, "field", LAMBDA d :
              Comp(Comp(D(d, 2, <<IF Num(a) /\ Num(b) THEN Add(a, b) ELSE UNK>>), b), UNK))
       [] w = "defer" -> With(v, "defer", LAMBDA d : Comp(Comp(d, FromInt(XT("noop"))), UNK))
       [] w = "marker" -> With(v, "unmark", LAMBDA d : CompN(d, UNK, 65))
       [] w = "defer@" -> Slot2(a, LAMBDA o : D(v, 1, <<RdCell(v, o)>>))
       [] w = "defer!" -> Slot2(a, LAMBDA o : WrCell(D(v, 2, <<>>), o, b))
       [] w = "literal" -> CompLit(D(v, 1, <<>>), a)
       [] w = "2literal" -> CompLit(CompLit(D(v, 2, <<>>), b), a)
       [] w = "fliteral" -> LET v1 == CompW(v, "flit")
                            IN [WrCell(v1, AlignUp(v1.here), f) EXCEPT !.here = v1.here + CELL, !.fs = Drp(v1.fs, 1)]
       [] OTHER -> Bad(v, "defining word")

-----------------------------------------------------------------------------
(* Tasks.                                                                    *)
TaskWords == {"pause", "activate", "suspend", "resume", "release"}
RECURSIVE NextAwake(_, _, _)
NextAwake(v, i, n) == IF v.awake[i + 1] THEN i ELSE IF n = 0 THEN -1 ELSE NextAwake(v, (i + 1) % NTASKS, n - 1)
TaskNo(c) == IF Num(c) /\ SmallNat(c) /\ ToNat(c) >= 1 /\ ToNat(c) <= NTASKS THEN ToNat(c) - 1 ELSE -1
TaskWord(v, w) ==
  LET a == Pk(v.ds, 1)
      i == TaskNo(a)
      v1 == D(v, 1, <<>>)
      Return(u) == SetIp([u EXCEPT !.rs = Drp(u.rs, 1)], Pk(u.rs, 1))
  IN IF w = "pause"
     THEN LET n == NextAwake(v, (v.cur + 1) % NTASKS, NTASKS)
          IN IF n < 0 THEN Bad(v, "pause with every task asleep") ELSE SwitchTo(v, n)
     ELSE IF ~Num(a) THEN Bad(v, "unknown task")
     ELSE IF w = "release"
     THEN LET o == OffOf(v, a)
          IN IF o > 0 /\ o + CELL <= DSCap
             THEN LET x == RdCell(v, o)
                  IN IF ~Num(x) THEN Bad(v, "release of an unknown facility")
                     ELSE IF x = FromInt(v.cur + 1) THEN WrCell(v1, o, Zero) ELSE v1
             ELSE Abort(v, E_ADDR)
     ELSE IF w = "activate"
     THEN (IF i < 0 THEN Abort(Return(v1), E_ARG)
           ELSE IF i = v.cur THEN Bad(v, "a task activates itself")
           ELSE LET k == v1.t[i + 1]
                IN Return([v1 EXCEPT
                     !.t[i + 1] = [k EXCEPT !.rs = EmptyR, !.sid = 0, !.inb = <<>>, !.awp = 0, !.si = 0,
                                            !.comp = FALSE, !.ip = v1.ip, !.ipr = v1.ipr, !.rfz = FALSE],
                     !.awake[i + 1] = TRUE, !.err = 0]))
     ELSE IF i < 0 THEN Abort(v1, E_ARG)
     ELSE [v1 EXCEPT !.awake[i + 1] = (w = "resume")]

-----------------------------------------------------------------------------
(* Files.  v.dir maps names to inodes, v.ino[i] = [b, n]: contents, number of *)
(* changes.  A handle is [open, ino, pos, fam].                               *)
FileWords == {"file-size", "file-position", "close-file", "create-file", "delete-file", "open-file",
  "read-file", "write-file", "resize-file", "reposition-file"}
NoFile == [open |-> FALSE, ino |-> 0, pos |-> 0, fam |-> 0]
MAXFILE == 3000
NameOK(b) == Len(b) > 0 /\ (b[1] >= 97 /\ b[1] <= 122)
             /\ \A i \in 1..Len(b) : (b[i] >= 97 /\ b[i] <= 122) \/ (b[i] >= 48 /\ b[i] <= 57) \/ b[i] \in {46, 95, 45}
\* lowest free identifier
RECURSIVE FreeSlot(_, _)
FreeSlot(q, i) == IF i > Len(q) \/ ~q[i].open THEN i ELSE FreeSlot(q, i + 1)
PutAt(q, i, x) == IF i > Len(q) THEN Append(q, x) ELSE [q EXCEPT ![i] = x]
\* number of the open file an identifier denotes, or 0
FileNo(v, c) == IF SmallNat(c) /\ ToNat(c) >= 1 /\ ToNat(c) <= Len(v.files) /\ v.files[ToNat(c)].open
                THEN ToNat(c) ELSE 0
SetIno(v, i, b) == [v EXCEPT !.ino[i] = [b |-> b, n |-> v.ino[i].n + 1]]
Overwrite(b, pos, s) ==
  LET b1 == IF Len(b) < pos THEN b \o Rep(0, pos - Len(b)) ELSE b
  IN SubSeq(b1, 1, pos) \o s \o SubSeq(b1, pos + Len(s) + 1, Len(b1))
FileWord(v, w) ==
  LET s == v.ds
      a == Pk(s, 1)       \* file id or access method
      b == Pk(s, 2)
      c == Pk(s, 3)
      E(n) == FromInt(n)
      f == FileNo(v, a)
      h == v.files[f]
      data == v.ino[h.ino].b
      dlen == Len(data)
      Known3 == Num(a) /\ Num(b) /\ Num(c)
      \* the memory range of the operands (c-addr u ...)
      off == OffOf(v, c)
      len == ToNat(b)
      range == SmallNat(b) /\ off >= 0 /\ off + len <= DSCap
      name == Bytes(v, off, len)
      longName == IsNeg(b) \/ ~SmallNat(b) \/ len > 256
      Open(v1, i, fam) == LET k == FreeSlot(v1.files, 1)
                          IN D([v1 EXCEPT !.files = PutAt(v1.files, k, [open |-> TRUE, ino |-> i, pos |-> 0, fam |-> fam])],
                               3, <<E(k), Zero>>)
      OpenOrCreate(create) ==
        IF ~Known3 THEN Bad(v, "unknown file name")
        ELSE IF longName THEN D(v, 3, <<Ones, E(E_ARG)>>)
        ELSE IF ~SmallNat(a) \/ ToNat(a) > 2 \/ (create /\ ToNat(a) = 0) THEN D(v, 3, <<Ones, E(E_ARG)>>)
        ELSE IF ~range THEN D(v, 3, <<Ones, E(E_ADDR)>>)
        ELSE IF name = <<>> \/ Len(name) > 255 THEN D(v, 3, <<Ones, E(E_IO)>>)
        ELSE IF ~NameOK(name) THEN Bad(v, "file name")
        ELSE IF name \in DOMAIN v.dir
        THEN Open(IF create THEN SetIno(v, v.dir[name], <<>>) ELSE v, v.dir[name], ToNat(a))
        ELSE IF create
        THEN LET i == Len(v.ino) + 1
             IN Open([v EXCEPT !.ino = Append(v.ino, [b |-> <<>>, n |-> 0]),
                               !.dir = (name :> i) @@ v.dir],
                     i, ToNat(a))
        ELSE D(v, 3, <<Ones, E(E_IO)>>)
  IN CASE w = "file-size" -> IF ~Num(a) THEN Bad(v, "unknown file id")
                             ELSE IF f = 0 THEN D(v, 1, <<Ones, Ones, E(E_ARG)>>)
                             ELSE D(v, 1, <<E(dlen), Zero, Zero>>)
       [] w = "file-position" -> IF ~Num(a) THEN Bad(v, "unknown file id")
                             ELSE IF f = 0 THEN D(v, 1, <<Ones, Ones, E(E_ARG)>>)
                             ELSE D(v, 1, <<E(h.pos), Zero, Zero>>)
       [] w = "close-file" -> IF ~Num(a) THEN Bad(v, "unknown file id")
                              ELSE IF f = 0 THEN D(v, 1, <<E(E_ARG)>>)
                              ELSE [D(v, 1, <<Zero>>) EXCEPT !.files[f] = NoFile]
       [] w = "create-file" -> OpenOrCreate(TRUE)
       [] w = "open-file" -> OpenOrCreate(FALSE)
       [] w = "delete-file" ->      \* ( c-addr u -- ior )
            LET o2 == OffOf(v, b)
                n2 == ToNat(a)
                nm == Bytes(v, o2, n2)
            IN IF ~Num(a) \/ ~Num(b) THEN Bad(v, "unknown file name")
               ELSE IF IsNeg(a) \/ ~SmallNat(a) \/ n2 > 256 THEN D(v, 2, <<E(E_ARG)>>)
               ELSE IF o2 < 0 \/ o2 + n2 > DSCap THEN D(v, 2, <<E(E_ADDR)>>)
               ELSE IF nm = <<>> \/ Len(nm) > 255 THEN D(v, 2, <<E(E_IO)>>)
               ELSE IF ~NameOK(nm) THEN Bad(v, "file name")
               ELSE IF nm \in DOMAIN v.dir
               THEN D([v EXCEPT !.dir = Force([x \in DOMAIN v.dir \ {nm} |-> v.dir[x]])], 2, <<Zero>>)
               ELSE D(v, 2, <<E(E_IO)>>)
       [] w = "read-file" ->
            IF ~Known3 THEN Bad(v, "unknown read-file operand")
            ELSE IF a = Zero THEN D(v, 3, <<Ones, E(E_ARG)>>)
            ELSE IF f = 0 THEN D(v, 3, <<Zero, E(E_ARG)>>)
            ELSE IF IsNeg(b) \/ ~range THEN D(v, 3, <<Zero, E(E_ADDR)>>)
            ELSE IF h.fam = 1 THEN D(v, 3, <<Zero, E(E_IO)>>)
            ELSE LET n == IF h.pos >= dlen THEN 0 ELSE Min2(len, dlen - h.pos)
                 IN [D(PutBytes(v, off, SubSeq(data, h.pos + 1, h.pos + n)), 3, <<E(n), Zero>>)
                       EXCEPT !.files[f].pos = h.pos + n]
       [] w = "write-file" ->
            IF ~Known3 THEN Bad(v, "unknown write-file operand")
            ELSE IF f = 0 THEN D(v, 3, <<E(E_ARG)>>)
            ELSE IF IsNeg(b) \/ ~range THEN D(v, 3, <<E(E_IO)>>)
            ELSE IF len = 0 THEN D(v, 3, <<Zero>>)
            ELSE IF h.fam = 0 THEN D(v, 3, <<E(E_IO)>>)
            ELSE IF h.pos + len > MAXFILE THEN Bad(v, "big file")
            ELSE IF \E i \in 1..len : name[i] < 0 THEN Bad(v, "writes unknown bytes")
            ELSE [D(SetIno(v, h.ino, Overwrite(data, h.pos, name)), 3, <<Zero>>)
                    EXCEPT !.files[f].pos = h.pos + len]
       [] w = "resize-file" ->      \* ( ud fileid -- ior )
            IF ~Known3 THEN Bad(v, "unknown resize-file operand")
            ELSE IF f = 0 \/ b # Zero \/ IsNeg(c) THEN D(v, 3, <<E(E_ARG)>>)
            ELSE IF h.fam = 0 THEN D(v, 3, <<E(E_IO)>>)
            ELSE IF ~SmallNat(c) \/ ToNat(c) > MAXFILE THEN Bad(v, "big file")
            ELSE D(SetIno(v, h.ino, IF ToNat(c) <= dlen THEN SubSeq(data, 1, ToNat(c))
                                    ELSE data \o Rep(0, ToNat(c) - dlen)), 3, <<Zero>>)
       [] w = "reposition-file" ->
            IF ~Known3 THEN Bad(v, "unknown reposition-file operand")
            ELSE IF f = 0 \/ b # Zero \/ IsNeg(c) THEN D(v, 3, <<E(E_ARG)>>)
            ELSE IF ~SmallNat(c) \/ ToNat(c) > 1000000 THEN Bad(v, "big file")
            ELSE [D(v, 3, <<Zero>>) EXCEPT !.files[f].pos = ToNat(c)]
       [] OTHER -> Bad(v, "file word")

-----------------------------------------------------------------------------
(* Input sources.  A source is [open, ino, pos, n, path, rd]; n is the number *)
(* of changes of the inode when it was opened, rd whether it can be read.     *)
SrcWords == {"open-source", "close-source", "load-line", "save-source", "restore-source",
  "_save-input", "_restore-input"}
NoSrc == [open |-> FALSE, ino |-> 0, pos |-> 0, n |-> 0, path |-> <<>>, rd |-> TRUE]
SrcNo(v, c) == IF SmallNat(c) /\ ToNat(c) >= 1 /\ ToNat(c) <= Len(v.srcs) /\ v.srcs[ToNat(c)].open
               THEN ToNat(c) ELSE 0
RECURSIVE LineEnd(_, _)       \* offset of the LF at or behind p, or the end
LineEnd(b, p) == IF p >= Len(b) \/ b[p + 1] = 10 THEN p ELSE LineEnd(b, p + 1)
StackOff == BaseDfa("src-stack")
SetSource(v, idc, idxc, k) ==     \* source-idx! then source-id!, dropping k cells before
  LET v1 == [D(v, k, <<>>) EXCEPT !.si = IF SmallNat(idxc) THEN ToNat(idxc) ELSE 100000000]
  IN IF idc = Zero THEN [v1 EXCEPT !.sid = 0]
     ELSE IF SrcNo(v, idc) > 0 THEN [v1 EXCEPT !.sid = SrcNo(v, idc)]
     ELSE Abort(v1, E_ARG)
SrcWord(v, w) ==
  LET a == Pk(v.ds, 1)
      b == Pk(v.ds, 2)
      c == Pk(v.ds, 3)
      k == SrcNo(v, a)
      n == RdCell(v, StackOff + CELL)       \* entries on the source stack
      cap == RdCell(v, StackOff)
  IN CASE w = "open-source" ->     \* ( c-addr u file-id -- source-id )
            LET f == FileNo(v, a)
                h == v.files[f]
                o == OffOf(v, c)
                slot == FreeSlot(v.srcs, 1)
                src == [open |-> TRUE, ino |-> h.ino, pos |-> h.pos, n |-> v.ino[h.ino].n,
                        path |-> Bytes(v, o, ToNat(b)), rd |-> h.fam # 1]
            IN IF ~Num(a) \/ ~Num(b) \/ ~Num(c) THEN Bad(v, "unknown open-source operand")
               ELSE IF f = 0 THEN Abort(D(v, 3, <<>>), E_ARG)
               ELSE IF IsNeg(b) \/ ~SmallNat(b) \/ o < 0 \/ o + ToNat(b) > DSCap THEN Abort(D(v, 3, <<>>), E_ADDR)
               ELSE [D(v, 3, <<FromInt(slot)>>) EXCEPT
                       !.files[f] = NoFile, !.srcs = PutAt(v.srcs, slot, src),
                       !.lines = IF slot > Len(v.lines) THEN Append(v.lines, <<>>) ELSE v.lines]
       [] w = "close-source" ->
            IF ~Num(a) THEN Bad(v, "unknown source")
            ELSE IF a = FromInt(v.sid) \/ k = 0 THEN Abort(D(v, 1, <<>>), E_ARG)
            ELSE [D(v, 1, <<>>) EXCEPT !.srcs[k] = NoSrc]
       [] w = "load-line" ->       \* ( source-id -- u flag )
            IF ~Num(a) THEN Bad(v, "unknown source")
            ELSE IF k = 0 THEN Abort(D(v, 1, <<>>), E_ARG)
            ELSE LET s == v.srcs[k]
                     t == v.ino[s.ino].b
                     e == LineEnd(t, s.pos)
                     l == SubSeq(t, s.pos + 1, e)
                     nl == e < Len(t)
                     m == IF nl /\ Len(l) > 0 /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l
                     eof == s.pos >= Len(t)
                     v1 == D(v, 1, <<FromInt(Len(m)), Flag(~eof)>>)
                 IN IF ~s.rd THEN Abort([D(v, 1, <<>>) EXCEPT !.lines[k] = <<>>], E_IO)
                    ELSE IF v.ino[s.ino].n # s.n THEN Bad(v, "file changed while it is a source")
                    ELSE IF eof THEN [v1 EXCEPT !.lines[k] = <<>>]
                    ELSE IF \E i \in 1..Len(m) : m[i] > 127 THEN Bad(v, "source line that is not ASCII")
                    ELSE [v1 EXCEPT !.lines[k] = m, !.srcs[k].pos = IF nl THEN e + 1 ELSE e]
       [] w = "_save-input" -> D(v, 0, <<FromInt(v.sid), FromInt(v.si), FromInt(2)>>)
       [] w = "_restore-input" ->
            IF ~Num(a) \/ ~Num(b) \/ ~Num(c) THEN Bad(v, "unknown restore-input operand")
            ELSE IF a = FromInt(2) THEN SetSource(v, c, b, 3) ELSE Abort(D(v, 1, <<>>), E_ABORT)
       [] w = "save-source" ->
            IF ~Num(n) \/ ~Num(cap) \/ ~SmallNat(n) \/ ToNat(n) > SRCSTACK THEN Bad(v, "source stack overwritten")
            ELSE IF ~SLt(n, cap) \/ ToNat(n) >= SRCSTACK THEN Abort(v, E_ABORT)
            ELSE LET o == StackOff + 16 * (ToNat(n) + 1)
                 IN WrCell(WrCell(WrCell(v, StackOff + CELL, Add(n, One)), o, FromInt(v.si)), o + CELL, FromInt(v.sid))
       [] w = "restore-source" ->
            IF ~Num(n) \/ ~SmallInt(n) \/ (~IsNeg(n) /\ ToNat(n) > SRCSTACK) THEN Bad(v, "source stack overwritten")
            ELSE IF IsNeg(n) \/ n = Zero THEN Abort(v, E_ABORT)
            ELSE LET o == StackOff + 16 * ToNat(n)
                     v1 == WrCell(v, StackOff + CELL, Sub(n, One))
                 IN SetSource(v1, RdCell(v, o + CELL), RdCell(v, o), 0)
       [] OTHER -> Bad(v, "source word")

-----------------------------------------------------------------------------
(* dump                                                                      *)
DumpWords == {"dump", "_dump", "_type"}
Hex(v, o, n) == FlattenSeq([i \in 1..n |-> LET x == ByteAt(v, o + i - 1)
                    IN IF x < 0 THEN <<WILD>> ELSE PadLeft(Numeral(FromInt(x), 16), 3)])
Chars(v, o, n) == [i \in 1..n |-> LET x == ByteAt(v, o + i - 1)
                    IN IF x < 0 THEN WILD ELSE IF x % 128 < 32 \/ x % 128 = 127 THEN 95 ELSE x % 128]
RECURSIVE DumpR(_, _, _)
DumpR(v, o, n) == IF n <= 0 THEN <<>>
  ELSE PadLeft(Numeral(AddrC(v, o), 16), 4) \o S2B(": ") \o Hex(v, o, 8) \o S2B("  ") \o Chars(v, o, 8)
       \o <<10>> \o DumpR(v, o + 8, n - 8)
DumpWord(v, w) ==
  LET a == Pk(v.ds, 1)
      o == OffOf(v, Pk(v.ds, 2))
      n == ToNat(a)
  IN IF ~Num(a) \/ ~Num(Pk(v.ds, 2)) \/ IsNeg(a) \/ ~SmallNat(a) \/ n > 256 \/ o < 0 \/ o + n + 8 > DSCap
     THEN Bad(v, "dump range")
     ELSE Emit(D(v, 2, <<>>), IF w = "dump" THEN DumpR(v, o, n) ELSE IF w = "_dump" THEN Hex(v, o, n) ELSE Chars(v, o, n))

-----------------------------------------------------------------------------
(* Running the microcode.                                                     *)
\* ms, get, ... use up to ten entries of the data stack beyond their operands
Roomy(v) == v.ds.n <= 54 /\ v.rs.n <= 54
MicroOp(v0) ==
  LET i == MicroCode[-v0.ip - MBASE]
      v == [v0 EXCEPT !.ip = v0.ip - 1]
      a == Pk(v.ds, 1)
      dr == D(v, 1, <<>>)
  IN CASE i.op = "w" -> IF i.s = "parse-word" /\ (v.ds.n > 120 \/ v.rs.n > 54) THEN Bad(v, "stacks nearly full in a library word")
                        ELSE Exec(v, XT(i.s))
       [] i.op = "lit" -> PN(v, i.n)
       [] i.op = "xt" -> PN(v, XT(i.s))
       [] i.op = "out" -> Emit(v, S2B(i.s))
       [] i.op = "br" -> [v EXCEPT !.ip = -i.n]
       [] i.op = "0br" -> IF ~Num(a) THEN Bad(v, "unknown flag")
                          ELSE IF a = Zero THEN [dr EXCEPT !.ip = -i.n] ELSE dr
       [] i.op = "call" -> [RP(v, IpCell(v)) EXCEPT !.ip = -i.n]
       [] i.op = "stacks" -> CheckStacks([v EXCEPT !.ip = -i.n, !.wp = XT("?stacks")])
       [] i.op = "line1" -> WrCell(v, LineOff, One)
       [] i.op = "line+" -> WrCell(v, LineOff, LET x == RdCell(v, LineOff) IN IF Num(x) THEN Add(x, One) ELSE UNK)
       [] i.op = "lineno" -> LET x == RdCell(v, LineOff)
                             IN IF Num(x) THEN Emit(v, Numeral(x, 10)) ELSE Bad(v, "line number")
       [] i.op = "nosrc" -> WrCell(v, BaseDfa("src-stack") + CELL, Zero)
       \* ( source-id -- ) back to the includer, then close the source
       [] i.op = "close" -> LET v1 == SrcWord(dr, "restore-source")
                            IN IF v1.err # 0 THEN [v1 EXCEPT !.rfz = TRUE, !.awp = -1] ELSE SrcWord(P(v1, a), "close-source")
       [] OTHER -> Bad(v, "microcode")

-----------------------------------------------------------------------------
(* Execution of words.                                                       *)
ProbeWords == {"~", "~~", "tick", "receive"}
ProbeWord(v, w) ==
  CASE w \in {"~", "~~"} -> [v EXCEPT !.probe = "p"]
    [] w = "tick" -> [v EXCEPT !.now = v.now + 1]
    [] w = "receive" -> [v EXCEPT !.probe = "r"]
    [] OTHER -> v

\* words defined in core.fth as colon definitions that are atomic here
LibWords == LibStackWords \cup DumpWords \cup {".", "f.", "cr", "space", "spaces", "h.", "h.r", "?", "f>", "f,",
  "2@", "2!", "+!", "2,", "c,", "fill", "count", "append", "on", "off", "2constant", "variable", "2variable",
  "fvariable", "+field", "defer", "defer@", "defer!", "literal", "2literal", "fliteral", "word", "release",
  "decimal", "hex", "save-source", "restore-source", "_save-input", "_restore-input"}
Need1 == {"2*", "2/", "?dup", ">char", ".", "spaces", "h.", "?", "2@", "c,", "count", "on", "off", "literal",
          "word", "release", "defer@"}
Need2 == {"<=", ">=", "tuck", "max", "min", "bounds", "h.r", "+!", "2,", "2constant", "+field", "defer!",
          "2literal", "dump", "_dump", "_type"}
Need3 == {"/string", "2!", "fill", "append", "_restore-input"}
NeedF == Force([w \in LibWords |-> IF w \in Need1 THEN 1 ELSE IF w \in Need2 THEN 2 ELSE IF w \in Need3 THEN 3 ELSE 0])
NeedFp(w) == IF w = "f>" THEN 2 ELSE IF w \in {"f.", "f,", "fliteral"} THEN 1 ELSE 0

ClassTab == LET T(q, k) == [w \in q |-> k]
  IN T(StackWords, 1) @@ T(LibStackWords, 2) @@ T(FloatWords, 3) @@ T(RWords, 4) @@ T(CtrlWords, 5)
     @@ T(MemWords, 6) @@ T(OutWords, 7) @@ T(ParseWords, 8) @@ T(DefWords, 9) @@ T(TaskWords, 10)
     @@ T(FileWords, 11) @@ T(SrcWords, 12) @@ T(DumpWords, 13)
     @@ T({Micros[i][1] : i \in 1..Len(Micros)}, 14) @@ T(ProbeWords, 15)
     @@ T({"save-input", "restore-input"}, 16)
\* (TLC evaluates constants once per worker and in no particular order, so they
\* avoid looking into each other repeatedly)
ClassOf == LET tab == ClassTab
               bw == BaseWords
           IN Force([i \in 1..Len(bw) |-> LET w == bw[i].n IN IF w \in DOMAIN tab THEN tab[w] ELSE 0])
IsLib == LET lib == LibWords
             bw == BaseWords
         IN Force([i \in 1..Len(bw) |-> bw[i].n \in lib])

BaseWord(v, i) ==
  LET w == BaseName[i]
      c == ClassOf[i]
  IN CASE c = 1 \/ c = 2 -> StackWord(v, w)
       [] c = 3 -> FloatWord(v, w)
       [] c = 4 -> RetWord(v, w)
       [] c = 5 -> CtrlWord(v, w)
       [] c = 6 -> MemWord(v, w)
       [] c = 7 -> OutWord(v, w)
       [] c = 8 -> ParseWord_(v, w)
       [] c = 9 -> DefWord(v, w)
       [] c = 10 -> TaskWord(v, w)
       [] c = 11 -> FileWord(v, w)
       [] c = 12 -> SrcWord(v, w)
       [] c = 13 -> DumpWord(v, w)
       [] c = 14 -> [RP(v, IpCell(v)) EXCEPT !.ip = -MicroEntry[w]]
       [] c = 15 -> ProbeWord(v, w)
       [] c = 16 -> LET x == RdCell(v, BaseDfa(w))
                        v1 == [RP(v, IpCell(v)) EXCEPT !.ip = -MicroEntry["return"]]
                    IN IF Num(x) /\ SmallNat(x) THEN Exec(v1, ToNat(x)) ELSE Bad(v, "input vector")
       [] OTHER -> Bad(v, "word outside the specification")

\* Does an exception leave the running definition (so that the rest of a
\* library word is not executed)?
Leaves(v) == v.handler < NB /\ BaseName[v.handler + 1] \in {"bye", "(abort)"}
LibWord(v, i, u(_)) ==
  LET w == BaseName[i]
      r == u(v)
  IN IF v.ds.n < NeedF[w] \/ v.ds.n > 54 \/ v.rs.n > 54 \/ v.fs.n > 56 \/ v.fs.n < NeedFp(w)
     THEN Bad(v, "library word near a stack limit")
     ELSE IF r.err = v.err THEN [r EXCEPT !.wp = -1]
     ELSE IF Leaves(v) THEN [r EXCEPT !.rfz = TRUE, !.awp = -1] ELSE Bad(v, "exception inside a library word")

\* the body of a user-made word of a library defining word
UserWord(v, k) ==
  CASE k.kind = "nest" -> [RP(v, IpCell(v)) EXCEPT !.ip = k.dfa]
    [] k.kind = "var" -> P(v, AddrC(v, k.dfa))
    [] k.kind = "const" -> P(v, RdCell(v, k.dfa))
    [] k.kind = "fconst" -> [v EXCEPT !.fs = Psh(v.fs, LET x == RdCell(v, k.dfa) IN IF Num(x) THEN x ELSE ANYF)]
    [] k.kind = "does" -> [RP(P(v, AddrC(v, k.dfa)), IpCell(v)) EXCEPT !.ip = k.doer]
    [] k.kind = "unmark" -> LET i == Len(SelectSeq(v.dict, LAMBDA x : x.nfa < k.nfa))
                            IN [v EXCEPT !.dict = SubSeq(v.dict, 1, i), !.last = NB + i - 1, !.here = k.nfa]
    [] ~Roomy(v) \/ (k.kind = "field" /\ v.ds.n < 1) -> Bad(v, "library word near a stack limit")
    [] k.kind = "2const" -> D([v EXCEPT !.wp = -1], 0, <<RdCell(v, k.dfa + CELL), RdCell(v, k.dfa)>>)
    [] k.kind = "field" -> LET a == Pk(v.ds, 1) x == RdCell(v, k.dfa)
                           IN D([v EXCEPT !.wp = -1], 1, <<IF Num(a) /\ Num(x) THEN Add(a, x) ELSE UNK>>)
    [] k.kind = "defer" -> LET x == RdCell(v, k.dfa)
                               v1 == [RP(v, IpCell(v)) EXCEPT !.ip = -MicroEntry["return"]]
                           IN IF ~Num(x) THEN Bad(v, "unknown deferred action")
                              ELSE IF SmallNat(x) THEN Exec(v1, ToNat(x)) ELSE Abort(v1, E_UNSUPP)
    [] OTHER -> Bad(v, "user word")

Exec(v0, xt) ==
  LET v == [v0 EXCEPT !.wp = xt]
  IN IF xt >= NWords(v) THEN Abort(v, E_UNSUPP)
     ELSE IF xt >= NB THEN UserWord(v, v.dict[xt - NB + 1])
     ELSE IF xt = 0 THEN v
     ELSE IF IsLib[xt + 1] THEN LibWord(v, xt + 1, LAMBDA u : BaseWord(u, xt + 1))
     ELSE BaseWord(v, xt + 1)

\* one instruction of the inner interpreter
Instr(v) ==
  IF v.ip <= -10 THEN MicroOp(v)
  ELSE LET x == RdCell(v, v.ip)
           v1 == [v EXCEPT !.ip = v.ip + CELL]
       IN IF ~Num(x) THEN Bad(v, "executes an unknown cell")
          ELSE IF SmallNat(x) THEN Exec(v1, ToNat(x))
          ELSE Abort([v1 EXCEPT !.wp = 900000], E_UNSUPP)

-----------------------------------------------------------------------------
(* The outer interpreter: one step.                                          *)
\* an instruction pointer outside the data space ends the inner interpreter
OuterStep(v) ==
  CASE v.phase = "tok" ->
         LET v1 == ReadToken(v)
             v2 == IF v1.comp THEN CompileToken(v1) ELSE InterpretToken(v1)
         IN IF v1.tok = <<>> THEN [v1 EXCEPT !.phase = "idle"]
            ELSE IF v2.err # 0 THEN [v2 EXCEPT !.phase = "idle"]
            ELSE [v2 EXCEPT !.phase = "run"]
    [] v.phase \in {"run", "solo"} ->
         IF ~Stopped(v) THEN Instr(v)
         ELSE IF v.phase = "solo" THEN [v EXCEPT !.phase = "idle"]
         ELSE LET v1 == CheckStacks(v)
              IN [v1 EXCEPT !.phase = IF v1.err # 0 THEN "idle" ELSE "tok"]
    [] OTHER -> v

\* at most k steps, up to the next observation
RECURSIVE RunK(_, _)
RunK(v, k) ==
  IF k = 0 \/ v.phase = "idle" \/ v.probe # "" \/ v.bad # "" THEN v ELSE RunK(OuterStep(v), k - 1)

\* what the host does with a line of source text
SetLine(v, t) ==
  IF v.sid > 0 THEN [v EXCEPT !.lines[v.sid] = t, !.si = 0]
  ELSE IF ~v.hasin THEN v
  ELSE [v EXCEPT !.inb = t, !.si = 0]

-----------------------------------------------------------------------------
FreshTask(i) == [ds |-> EmptyD, rs |-> EmptyR, cs |-> EmptyC, fs |-> EmptyF, ip |-> -1, ipr |-> Zero,
  wp |-> 0, awp |-> 0, comp |-> FALSE, inb |-> <<>>, hasin |-> i = 0, si |-> 0, sid |-> 0,
  files |-> <<>>, srcs |-> <<>>, lines |-> <<>>, rfz |-> FALSE]
XmInit ==
  LET xt == XtOf
      bw == BaseWords
      dfa(n) == bw[xt[n] + 1].dfa
      tib == dfa("tib")
      src == dfa("src-stack")
      Cells(b, lo, hi, x) == [o \in {b + 8 * k : k \in lo..hi} |-> x]
  IN (BASE :> FromInt(10)) @@ (src :> FromInt(SRCSTACK))
     @@ (dfa("save-input") :> FromInt(xt["_save-input"])) @@ (dfa("restore-input") :> FromInt(xt["_restore-input"]))
     @@ Cells(tib, 1, 32, UNKCELL) @@ Cells(src, 2, 33, UNKCELL)
     @@ [o \in {dfa("#tib"), tib, dfa(">in"), dfa("load-line#"), src + 8} |-> Zero]
\* a fresh machine whose data space starts at the given address and whose
\* exception handler is the given word
Fresh(start, handler) ==
  [ds |-> EmptyD, rs |-> EmptyR, cs |-> EmptyC, fs |-> EmptyF, ip |-> -1, ipr |-> Zero,
   wp |-> 0, awp |-> 0, comp |-> FALSE, inb |-> <<>>, hasin |-> TRUE, si |-> 0, sid |-> 0,
   files |-> <<>>, srcs |-> <<>>, lines |-> <<>>, rfz |-> FALSE,
   t |-> <<FreshTask(0), FreshTask(1), FreshTask(2), FreshTask(3), FreshTask(4)>>, cur |-> 0, awake |-> <<TRUE, FALSE, FALSE, FALSE, FALSE>>,
   mem |-> <<>>, xm |-> XmInit, here |-> H0, start |-> start, dict |-> <<>>, last |-> NB - 1,
   err |-> 0, handler |-> handler, out |-> <<>>, std |-> <<>>, tok |-> <<>>, now |-> 0, tm |-> Zero, tu |-> Zero,
   lab |-> <<>>, fwd |-> {}, res |-> {}, ino |-> <<>>, dir |-> <<>>,
   phase |-> "idle", probe |-> "", bad |-> ""]
=============================================================================
