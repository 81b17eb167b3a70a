-------------------------------- MODULE ErrMC --------------------------------
(***************************************************************************)
(* Exceptions.  Every kind of fault, in every context, under both kinds of *)
(* handler, once and twice; then the machine must be as good as one that   *)
(* has never failed.                                                       *)
(***************************************************************************)
EXTENDS Host
CONSTANTS DEPTH, HANDLERS, SECOND, PROBES
VARIABLES ESEQ,      \* the faults so far: <<fault, context>>
          EL,        \* the lines fed
          EM,        \* the machine behind them, before the host resets it
          EC,        \* a machine with the same definitions that has not failed
          EX,        \* what is expected: <<exception, output>>
          EH         \* the handler
\* fault: code, text, and how it is noticed: "now" by the failing word (which
\* does nothing else), "lib" inside a word of the library, "late" by the check
\* behind the token; "line" only in interpreted text
F(c, t, k) == [c |-> c, t |-> t, k |-> k]
Faults == { F(E_ABORT, "abort", "now"), F(E_DIV, "1 0 /", "now"), F(E_DIV, "-5 0 mod", "now"), F(E_DIV, "1 0 /mod", "now"),
  F(E_ADDR, "-1 @", "now"), F(E_ADDR, "5 -1 !", "now"), F(E_ADDR, "0 c!", "now"), F(E_ADDR, "-1 1 type", "now"), F(E_ADDR, "1 -1 8 move", "now"),
  F(E_ADDR, "-1 f@", "now"), F(E_ADDR, "max-n allot", "now"), F(E_ADDR, "-8 2@", "lib"), F(E_ADDR, "-8 8 65 fill", "lib"),
  F(E_UNDEF, "nosuch", "line"), F(E_UNDEF, "' nosuch", "line"), F(E_COMPONLY, "exit", "line"), F(E_COMPONLY, "if", "line"),
  F(E_UNSUPP, "-1 execute", "now"), F(E_ARG, "99999 >name", "now"), F(E_ARG, "6 suspend", "now"), F(E_ARG, "0 resume", "now"),
  F(E_ARG, "77 load-line", "now"), F(E_ARG, "0 close-source", "now"), F(E_ABORT, "restore-source", "lib"),
  F(E_SUNDER, "drop drop drop drop", "late"), F(E_FUNDER, "fdrop fdrop fdrop", "late"),
  F(E_SOVER, "65 pushes", "late"), F(E_FOVER, "65 fpushes", "late"), F(E_ROVER, "70 deep", "late"),
  F(E_SOVER, "64 pushes 1", "late"), F(E_FOVER, "64 fpushes 1e", "late") }
Contexts == {"line", "stack", "word", "nested", "loop", "pending", "def"}
Pre == <<": pushes 0 do i loop ; : fpushes 0 do 1e loop ; : deep dup if 1- recurse exit then drop ; variable z 5 z !">>
FitsIn(f, c) ==
  CASE c \in {"line", "stack"} -> TRUE
    [] c \in {"word", "nested"} -> f.k # "line"
    [] c = "loop" -> f.k \in {"now", "lib"}
    [] c = "pending" -> f.k \in {"now", "lib"}
    [] OTHER -> f.k = "line" /\ f.t = "nosuch"
\* the definitions a context needs, and the line that fails
N(k) == "t" \o ToString(k)
Defs(f, c, k) ==
  CASE c = "word" -> <<": " \o N(k) \o " 97 emit " \o f.t \o " 98 emit ;">>
    [] c = "nested" -> <<": " \o N(k) \o "a 97 emit " \o f.t \o " 98 emit ; : " \o N(k) \o " 101 emit " \o N(k) \o "a 102 emit ;">>
    [] c = "loop" -> <<": " \o N(k) \o " 3 0 do 97 emit " \o f.t \o " 98 emit loop 99 emit ;">>
    [] OTHER -> <<>>
LineOf(f, c, k) ==
  CASE c = "line" -> "97 emit " \o f.t \o " 98 emit"
    [] c = "stack" -> "1 2 3 4e 5e 97 emit " \o f.t \o " 98 emit"
    [] c = "pending" -> ": q" \o ToString(k) \o " 1 if [ " \o f.t \o " ] 2 then ; 98 emit"
    [] c = "def" -> ": q" \o ToString(k) \o " 1 if " \o f.t \o " 2 then ; 98 emit"
    [] OTHER -> "99 emit " \o N(k) \o " 100 emit"
\* a fault noticed only behind its token lets the running word finish; so does a handler that returns
Ends(f, h) == h = "bye" /\ f.k # "late"
Out(f, c, h) ==
  CASE c \in {"pending", "def"} -> <<>>
    [] c \in {"line", "stack"} -> <<97>>
    [] c = "word" -> IF Ends(f, h) THEN <<99, 97>> ELSE <<99, 97, 98>>
    [] c = "nested" -> IF Ends(f, h) THEN <<99, 101, 97>> ELSE <<99, 101, 97, 98, 102>>
    [] OTHER -> IF Ends(f, h) THEN <<99, 97>> ELSE <<99, 97, 98, 97, 98, 97, 98, 99>>
\* a library word under a handler that returns is not described, nor is data left by a failing word inside a definition
Described(f, c, h) == FitsIn(f, c) /\ (h = "noop" => f.k # "lib" /\ (f.k = "now" \/ c \in {"line", "stack"}))
Start(h) == FeedAll(Fresh(Somewhere, XT(h)), Pre, 1)
Init == /\ ESEQ = <<>> /\ EL = <<>> /\ EX = <<0, <<>>>>
        /\ EH \in HANDLERS
        /\ EM = Start(EH) /\ EC = Start(EH)
Next ==
  /\ Len(ESEQ) < DEPTH
  /\ \E f \in (IF ESEQ = <<>> THEN Faults ELSE {x \in Faults : x.t \in SECOND}), c \in Contexts :
       /\ Described(f, c, EH)
       /\ LET k == Len(ESEQ) + 1
              ds == Defs(f, c, k)
              l == LineOf(f, c, k)
          IN /\ ESEQ' = Append(ESEQ, <<f.t, c>>)
             /\ EL' = EL \o ds \o <<l, "!reset">>
             /\ EM' = FeedAll(Reset(EM), ds \o <<l>>, 1)
             /\ EC' = FeedAll(EC, ds, 1)
             /\ EX' = <<f.c, Out(f, c, EH)>>
             /\ EH' = EH
View == <<ESEQ, EH>>
\* the exception is the right one, nothing is executed behind it, the stacks are empty
Raised == ESEQ # <<>> => EM.bad = "" /\ EM.err = EX[1] /\ EM.out = EX[2]
Emptied == ESEQ # <<>> => (EH = "noop" \/ (EM.ds.n = 0 /\ EM.fs.n = 0 /\ EM.cs.n = 0))
\* the code can be read, and after a reset everything works as it would have
Probes == <<"1 2 + . 3 4", ": p 3 0 do i . loop ; p", "z @ . 6 z ! z @ .", ".s", "1e 2e f+ f. 5e", ": q1 7 ; q1 . : q2 8 ; q2", "source-id . source-idx .",
            "compiling? . depth . error .", "t1", "5 pushes", ": r 1 begin dup 5 < while 1+ repeat ; r", "1 >name drop 'x", "[char] q", "then", "drop", "fdrop", "nosuch">>
Same(a, b) == a.err = b.err /\ a.out = b.out /\ a.bad = b.bad /\ Entries(a.ds) = Entries(b.ds) /\ Entries(a.fs) = Entries(b.fs)
              /\ a.ds.n = b.ds.n /\ a.fs.n = b.fs.n /\ a.comp = b.comp
Recovered ==
  ESEQ # <<>> =>
    LET r == Reset(EM)
    IN /\ r.err = 0 /\ ~r.comp
       /\ \A i \in (1..Len(Probes)) \cap PROBES : LET p == S2B(Probes[i]) IN Same(Feed(IF EH = "noop" THEN ClearStacks(r) ELSE r, p), Feed(EC, p))
Emitted == ESEQ # <<>> => PrintT(<<"SCRIPT", EH, EL>>)
=============================================================================
