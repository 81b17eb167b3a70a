-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The host's view of the machine, for the exhaustive models: boot, feed a *)
(* line, recover.  Lines are written as TLA+ strings or tuples of tokens.  *)
(***************************************************************************)
EXTENDS RtForth, Json

Header == JsonDeserialize("header.json")
HdrWords == Header.words
HdrXt == Header.xt
HdrCap == Header.cap
HdrHere == Header.here
HdrGuardD == Header.gd
HdrGuardR == Header.gr
HdrGuardF == Header.gf

\* an address as good as any for the start of the data space
Somewhere == <<0, 0, 16, 7, 0, 0, 0, 0>>
Boot == Fresh(Somewhere, XT("bye"))

RECURSIVE JoinR(_, _, _)
JoinR(toks, i, acc) ==
  IF i > Len(toks) THEN acc
  ELSE JoinR(toks, i + 1, (IF i = 1 THEN <<>> ELSE Append(acc, 32)) \o S2B(toks[i]))
Join(toks) == JoinR(toks, 1, <<>>)

HOSTFUEL == 20000
RECURSIVE Finish(_, _)
Finish(v, k) == LET w == RunK(v, k)
                IN IF w.bad # "" \/ w.phase = "idle" THEN w
                   ELSE IF w.probe # "" THEN Finish([w EXCEPT !.probe = ""], k)
                   ELSE [w EXCEPT !.bad = "out of fuel"]
Quiet(v) == [v EXCEPT !.out = <<>>, !.std = <<>>]
\* the machine after a line (bytes); the output is that of this line
Feed(v, t) == Finish([SetLine(Quiet(v), t) EXCEPT !.phase = "tok"], HOSTFUEL)
RECURSIVE FeedAll(_, _, _)
FeedAll(v, ls, i) ==
  IF i > Len(ls) THEN v
  ELSE FeedAll(IF ls[i] = "!reset" THEN Reset(v)
               ELSE IF ls[i] = "!clear" THEN ClearStacks(v)
               ELSE Feed(v, S2B(ls[i])), ls, i + 1)
\* recover from whatever happened
Recover(v) == ClearStacks(Reset(v))
\* the host writes a file
PutFile(v, n, b) ==
  IF n \in DOMAIN v.dir THEN SetIno(v, v.dir[n], b)
  ELSE [v EXCEPT !.ino = Append(v.ino, [b |-> b, n |-> 0]), !.dir = (n :> (Len(v.ino) + 1)) @@ v.dir]
Top(v, k) == Pk(v.ds, k)
ToS(n) == ToString(n)
=============================================================================
