-------------------------------- MODULE FileMC --------------------------------
(***************************************************************************)
(* Files.  All histories of creating, opening, reading, writing, moving,   *)
(* resizing, closing and deleting over two files and two places for        *)
(* identifiers (which go stale when closed and may be handed out again).   *)
(* The reference is a set of byte sequences with names, and open files     *)
(* that each have a file, a position and a mode.                           *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, OPS, START
VARIABLES LSEQ,      \* the lines fed
          LREF,      \* the reference
          LMM,       \* the machine
          LE         \* what went wrong
\* id: identifier in each place (0 none); open: identifier -> [f, pos, mode]; name: file of a name (0 none); data; buf
Ref0 == [id |-> <<0, 0>>, open |-> <<>>, name |-> <<0, 0>>, data |-> <<>>, buf |-> <<1, 2, 3, 4>>]
Pre == <<"variable h1 variable h2 create bf 1 c, 2 c, 3 c, 4 c, 0 c, 0 c, 0 c, 0 c,",
         ": na s\" fa\" ; : nb s\" fb\" ; : ws s\" hij\" ; : wl s\" KLMNO\" ;">>
H(k) == "h" \o ToString(k) \o " @ "
N(f) == IF f = 1 THEN "na " ELSE "nb "
\* operations: <<what, place or file, argument>>
Op == [ o \in {"Ca", "Cb", "Oa", "Pa", "Ob", "Qa", "Da", "Db"} \cup {x \o k : x \in {"R", "W", "V", "Z", "Y", "T", "U", "S", "X"}, k \in {"1", "2"}} |->
  CASE o = "Ca" -> <<"create", 1, 2>> [] o = "Cb" -> <<"create", 2, 1>> [] o = "Oa" -> <<"open", 1, 0>> [] o = "Pa" -> <<"open", 1, 2>>
    [] o = "Ob" -> <<"open", 2, 0>> [] o = "Qa" -> <<"open", 1, 1>> [] o = "Da" -> <<"delete", 1, 0>> [] o = "Db" -> <<"delete", 2, 0>>
    [] o \in {"R1", "R2"} -> <<"read", IF o = "R1" THEN 1 ELSE 2, 4>>
    [] o \in {"W1", "W2"} -> <<"write", IF o = "W1" THEN 1 ELSE 2, 0>>
    [] o \in {"V1", "V2"} -> <<"writel", IF o = "V1" THEN 1 ELSE 2, 0>>
    [] o \in {"Z1", "Z2"} -> <<"repos", IF o = "Z1" THEN 1 ELSE 2, 2>>
    [] o \in {"Y1", "Y2"} -> <<"repos", IF o = "Y1" THEN 1 ELSE 2, 7>>
    [] o \in {"T1", "T2"} -> <<"resize", IF o = "T1" THEN 1 ELSE 2, 1>>
    [] o \in {"U1", "U2"} -> <<"resize", IF o = "U1" THEN 1 ELSE 2, 6>>
    [] o \in {"S1", "S2"} -> <<"size", IF o = "S1" THEN 1 ELSE 2, 0>>
    [] OTHER -> <<"close", IF o = "X1" THEN 1 ELSE 2, 0>> ]
Mode(k) == <<"r/o ", "w/o ", "r/w ">>[k + 1]
\* where a new identifier goes: the first free place (or place 2)
Place(r) == IF r.id[1] \notin DOMAIN r.open THEN 1 ELSE 2
LineOf(o, r) ==
  LET x == Op[o] h == H(x[2])
  IN CASE x[1] \in {"create", "open"} -> N(x[2]) \o Mode(x[3]) \o x[1] \o "-file swap h" \o ToString(Place(r)) \o " !"
       [] x[1] = "delete" -> N(x[2]) \o "delete-file"
       [] x[1] = "read" -> "bf 4 " \o h \o "read-file"
       [] x[1] = "write" -> "ws " \o h \o "write-file"
       [] x[1] = "writel" -> "wl " \o h \o "write-file"
       [] x[1] = "repos" -> ToString(x[3]) \o " 0 " \o h \o "reposition-file"
       [] x[1] = "resize" -> ToString(x[3]) \o " 0 " \o h \o "resize-file"
       [] x[1] = "size" -> h \o "file-size " \o h \o "file-position"
       [] OTHER -> h \o "close-file"
FAIL == <<-7>>           \* a result code that must not be 0
ANY == <<-8>>            \* a result with no meaning
Match(e, p) == Len(e) = Len(p) /\ \A i \in 1..Len(p) : IF p[i] = FAIL THEN e[i] # Zero ELSE IF p[i] = ANY THEN TRUE ELSE e[i] = p[i]
Ok(xs) == [i \in 1..Len(xs) |-> FromInt(xs[i])]
Over(b, pos, s) == LET c == IF Len(b) < pos THEN b \o Rep(0, pos - Len(b)) ELSE b
                   IN SubSeq(c, 1, pos) \o s \o (IF Len(c) > pos + Len(s) THEN SubSeq(c, pos + Len(s) + 1, Len(c)) ELSE <<>>)
\* <<new reference, results>>; nid: the identifier the machine delivered
Effect(o, r, nid) ==
  LET x == Op[o]
      f == r.name[x[2]]
      id == r.id[x[2]]
      ok == id \in DOMAIN r.open
      h == r.open[id]
      b == r.data[h.f]
      p == Place(r)
      opened(r1, g) == <<[r1 EXCEPT !.id[p] = nid, !.open = (nid :> [f |-> g, pos |-> 0, mode |-> x[3]]) @@ r1.open], Ok(<<0>>)>>
      put(s) == <<[r EXCEPT !.data[h.f] = Over(b, h.pos, s), !.open[id].pos = h.pos + Len(s)], Ok(<<0>>)>>
  IN CASE x[1] = "create" ->
            IF f > 0 THEN opened([r EXCEPT !.data[f] = <<>>], f)
            ELSE opened([r EXCEPT !.data = Append(r.data, <<>>), !.name[x[2]] = Len(r.data) + 1], Len(r.data) + 1)
       [] x[1] = "open" -> IF f > 0 THEN opened(r, f) ELSE <<[r EXCEPT !.id[p] = nid], <<FAIL>> >>
       [] x[1] = "delete" -> IF f > 0 THEN <<[r EXCEPT !.name[x[2]] = 0], Ok(<<0>>)>> ELSE <<r, <<FAIL>> >>
       [] x[1] = "read" ->
            IF ~ok THEN <<r, <<ANY, FAIL>> >> ELSE IF h.mode = 1 THEN <<r, <<ANY, FAIL>> >>
            ELSE LET n == IF h.pos >= Len(b) THEN 0 ELSE IF Len(b) - h.pos < 4 THEN Len(b) - h.pos ELSE 4
                 IN <<[r EXCEPT !.open[id].pos = h.pos + n, !.buf = Over(r.buf, 0, SubSeq(b, h.pos + 1, h.pos + n))], Ok(<<n, 0>>)>>
       [] x[1] \in {"write", "writel"} ->
            IF ~ok THEN <<r, <<FAIL>> >> ELSE IF h.mode = 0 THEN <<r, <<FAIL>> >>
            ELSE put(IF x[1] = "write" THEN <<104, 105, 106>> ELSE <<75, 76, 77, 78, 79>>)
       [] x[1] = "repos" -> IF ~ok THEN <<r, <<FAIL>> >> ELSE <<[r EXCEPT !.open[id].pos = x[3]], Ok(<<0>>)>>
       [] x[1] = "resize" ->
            IF ~ok THEN <<r, <<FAIL>> >> ELSE IF h.mode = 0 THEN <<r, <<FAIL>> >>
            ELSE <<[r EXCEPT !.data[h.f] = IF Len(b) >= x[3] THEN SubSeq(b, 1, x[3]) ELSE b \o Rep(0, x[3] - Len(b))], Ok(<<0>>)>>
       [] x[1] = "size" -> IF ~ok THEN <<r, <<ANY, ANY, FAIL, ANY, ANY, FAIL>> >> ELSE <<r, Ok(<<Len(b), 0, 0, h.pos, 0, 0>>)>>
       [] OTHER -> IF ~ok THEN <<r, <<FAIL>> >> ELSE <<[r EXCEPT !.open = Force([j \in DOMAIN r.open \ {id} |-> r.open[j]])], Ok(<<0>>)>>
\* the identifier in a place of the machine
IdIn(m, k) == LET c == RdCell(m, DfaOf(m, Find(m, S2B("h" \o ToString(k))))) IN IF SmallNat(c) THEN ToNat(c) ELSE -1
NameB == <<S2B("fa"), S2B("fb")>>
BufB(m) == Bytes(m, DfaOf(m, Find(m, S2B("bf"))), 4)
\* contents and buffer are those of the reference, identifiers in use are not handed out again
Agree(o, r0, r, m) ==
  /\ \A k \in {1, 2} : IF r.name[k] = 0 THEN NameB[k] \notin DOMAIN m.dir
                       ELSE NameB[k] \in DOMAIN m.dir /\ m.ino[m.dir[NameB[k]]].b = r.data[r.name[k]]
  /\ BufB(m) = r.buf
  /\ (Op[o][1] \in {"create", "open"} /\ m.ds.n = 1 /\ Entries(m.ds)[1] = Zero) => IdIn(m, Place(r0)) \notin DOMAIN r0.open /\ IdIn(m, Place(r0)) > 0
Step(s, o) ==    \* s = <<lines, reference, machine, error>>
  LET l == LineOf(o, s[2])
      m == Feed(s[3], S2B(l))
      x == Effect(o, s[2], IdIn(m, Place(s[2])))
  IN <<Append(s[1], l), x[1], Recover(m),
       IF m.bad # "" THEN m.bad ELSE IF m.err # 0 THEN "raises an exception"
       ELSE IF ~Match(Entries(m.ds), x[2]) THEN "results" ELSE IF Agree(o, s[2], x[1], m) THEN "" ELSE "contents">>
RECURSIVE Steps(_, _)
Steps(s, os) == IF os = <<>> THEN s ELSE Steps(Step(s, os[1]), Tail(os))
StartA == <<"Ca", "W1", "Pa">>
StartB == <<"Ca", "V1", "Cb", "W2">>
StartN == <<>>
Begin == Steps(<<<<>>, Ref0, FeedAll(Boot, Pre, 1), "">>, START)
Set(s) == LSEQ' = s[1] /\ LREF' = s[2] /\ LMM' = s[3] /\ LE' = s[4]
Init == LET s == Begin IN LSEQ = s[1] /\ LREF = s[2] /\ LMM = s[3] /\ LE = s[4]
Next == Len(LSEQ) < MAXLEN + Len(START) /\ LE = "" /\ \E o \in OPS : Set(Step(<<LSEQ, LREF, LMM, LE>>, o))
View == LSEQ
AsFiles == LE = ""
Emitted == Len(LSEQ) = MAXLEN + Len(START) => PrintT(<<"SCRIPT", LSEQ>>)
=============================================================================
