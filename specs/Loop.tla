-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* Counted loops on cells.  A loop keeps two numbers: a bias rn and a      *)
(* running value rt, index = rn + rt; the running value is biased so that  *)
(* crossing the boundary between limit-1 and limit is signed overflow.     *)
(***************************************************************************)
EXTENDS Cell
\* <<rn, rt>> on entry
LoopEnter(limit, start) ==
  LET rt == Add(MinC, Sub(start, limit)) IN <<Sub(start, rt), rt>>
LoopIndex(rn, rt) == Add(rn, rt)
\* does the step leave the loop?
LoopLeaves(rt, step) == AddOverflows(rt, step)
LoopNext(rt, step) == Add(rt, step)
=============================================================================
