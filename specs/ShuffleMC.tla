------------------------------ MODULE ShuffleMC ------------------------------
(***************************************************************************)
(* Stack shuffling.  The documented stack effects, as plain sequences of   *)
(* symbols on unbounded stacks, against the ring stacks of the machine,    *)
(* for every sequence of words up to MAXLEN.                               *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, SIDE     \* SIDE: "data" (data and return stack) or "float"
VARIABLES SEQW,     \* words executed
          AD, AR    \* abstract stacks, bottom first

\* operands (top last) and results as positions of operands
Eff == IF SIDE = "data" THEN
  [ dup    |-> <<1, <<1, 1>>>>, drop |-> <<1, <<>>>>, swap |-> <<2, <<2, 1>>>>, over |-> <<2, <<1, 2, 1>>>>,
    nip    |-> <<2, <<2>>>>, tuck |-> <<2, <<2, 1, 2>>>>, rot |-> <<3, <<2, 3, 1>>>> ]
  @@ ("-rot" :> <<3, <<3, 1, 2>>>>) @@ ("2dup" :> <<2, <<1, 2, 1, 2>>>>) @@ ("2drop" :> <<2, <<>>>>)
  @@ ("2swap" :> <<4, <<3, 4, 1, 2>>>>) @@ ("2over" :> <<4, <<1, 2, 3, 4, 1, 2>>>>)
  @@ ("?dup" :> <<1, <<1, 1>>>>)      \* no symbol stands for zero here
  ELSE
  [ fdup |-> <<1, <<1, 1>>>>, fdrop |-> <<1, <<>>>>, fswap |-> <<2, <<2, 1>>>>, fover |-> <<2, <<1, 2, 1>>>>,
    fnip |-> <<2, <<2>>>>, frot |-> <<3, <<2, 3, 1>>>> ]
Picks == IF SIDE = "data" THEN {"pick"} ELSE {"fpick"}
\* data/return transfers: <<data operands, return operands, data results, return results>>,
\* operands numbered data first
Trans == IF SIDE # "data" THEN <<>> ELSE
  (">r" :> <<1, 0, <<>>, <<1>>>>) @@ ("r>" :> <<0, 1, <<1>>, <<>>>>) @@ ("r@" :> <<0, 1, <<1>>, <<1>>>>)
  @@ ("2>r" :> <<2, 0, <<>>, <<1, 2>>>>) @@ ("2r>" :> <<0, 2, <<1, 2>>, <<>>>>)
  @@ ("2r@" :> <<0, 2, <<1, 2>>, <<1, 2>>>>)

N0 == IF SIDE = "data" THEN 6 ELSE 4
\* the cells the symbols stand for: all different, all limbs used
Val(i) == IF SIDE = "data" THEN <<i, 0, 255 - i, 16 * i, 0, i, 128, 255 - i>> ELSE FInt(3 * i - 7)
TopK(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
But(s, k) == SubSeq(s, 1, Len(s) - k)
Sel(xs, ps) == [i \in 1..Len(ps) |-> xs[ps[i]]]

Init == SEQW = <<>> /\ AD = [i \in 1..N0 |-> i] /\ AR = <<>>
Next ==
  /\ Len(SEQW) < MAXLEN
  /\ \/ \E w \in DOMAIN Eff :
          /\ Len(AD) >= Eff[w][1] /\ Len(AD) <= N0 + 4
          /\ SEQW' = Append(SEQW, w)
          /\ AD' = But(AD, Eff[w][1]) \o Sel(TopK(AD, Eff[w][1]), Eff[w][2])
          /\ AR' = AR
     \/ \E w \in Picks, k \in {0, 1, 2, 4} :
          /\ Len(AD) > k
          /\ SEQW' = SEQW \o <<ToString(k), w>>
          /\ AD' = Append(AD, AD[Len(AD) - k])
          /\ AR' = AR
     \/ \E w \in DOMAIN Trans :
          LET e == Trans[w]
          IN /\ Len(AD) >= e[1] /\ Len(AR) >= e[2] /\ Len(AD) <= N0 + 4
             /\ SEQW' = Append(SEQW, w)
             /\ LET xs == TopK(AD, e[1]) \o TopK(AR, e[2])
                IN /\ AD' = But(AD, e[1]) \o Sel(xs, e[3])
                   /\ AR' = But(AR, e[2]) \o Sel(xs, e[4])

\* the machine: the words one after the other
Mach == [Boot EXCEPT !.ds = IF SIDE = "data" THEN PshAll(EmptyD, [i \in 1..N0 |-> Val(i)], 1) ELSE EmptyD,
                     !.fs = IF SIDE = "data" THEN EmptyF ELSE PshAll(EmptyF, [i \in 1..N0 |-> Val(i)], 1)]
RECURSIVE RunW(_, _, _)
RunW(v, ws, i) ==
  IF i > Len(ws) THEN v
  ELSE RunW(IF ws[i] \in {"0", "1", "2", "4"} THEN P(v, FromInt(CHOOSE k \in {0, 1, 2, 4} : ToString(k) = ws[i]))
            ELSE Exec(v, XT(ws[i])), ws, i + 1)
Same == LET v == RunW(Mach, SEQW, 1)
            e == Entries(IF SIDE = "data" THEN v.ds ELSE v.fs)
            r == Entries(v.rs)
        IN /\ v.err = 0 /\ v.bad = ""
           /\ e = [i \in 1..Len(AD) |-> Val(AD[i])]
           /\ r = [i \in 1..Len(AR) |-> Val(AR[i])]
           /\ CheckStacks(v).err = 0
\* as a definition body: give back what is on the return stack
Body == SEQW \o [i \in 1..Len(AR) |-> "r>"]
Emitted == SEQW # <<>> => PrintT(<<"SCRIPT", Body>>)
=============================================================================
