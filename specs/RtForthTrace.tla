----------------------------- MODULE RtForthTrace -----------------------------
(***************************************************************************)
(* Trace validation: is what the real virtual machine was observed to do a *)
(* behaviour of the specification?  Every script is one initial state; the *)
(* specification is run over the script's items and compared with the      *)
(* recorded observation at every probe, after every line and (shell) at    *)
(* every request for input.                                                *)
(***************************************************************************)
EXTENDS RtForth, Real, Json

\* fixed names in TLC's working directory: TLC evaluates these only once, which
\* it does not if the names depend on the environment
Header == JsonDeserialize("header.json")
Traces == ndJsonDeserialize("traces.ndjson")
HdrWords == Header.words
HdrXt == Header.xt
HdrCap == Header.cap
HdrHere == Header.here
HdrGuardD == Header.gd
HdrGuardR == Header.gr
HdrGuardF == Header.gf

VARIABLES SC,    \* script
          VMS,     \* machine
          ITEM,     \* items begun
          BUSY,  \* item ITEM is being executed
          EVN,     \* events consumed
          FUEL,  \* batches used for this item
          ST     \* "run", "ok", "skip" or "rej"
vars == <<SC, VMS, ITEM, BUSY, EVN, FUEL, ST>>

BATCH == 250
MAXFUEL == 400

S == Traces[SC]

\* ----- comparison -----
CellOk(c, x) == IF c[1] = -30 THEN RealOk(c, x)
                ELSE IF c[1] = -31 THEN FIsNaN(x)
                ELSE c[1] < 0 \/ c = x
StkOk(s, n, xs) == s.n = n /\ (s.n > HALF \/ \A k \in 1..n : CellOk(Slot(s, k - 1), xs[k]))
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, a, s, b) ==
  IF a > Len(p) THEN b > Len(s)
  ELSE IF p[a] = WILD
       THEN \E k \in b..(Len(s) + 1) : GlobAt(p, a + 1, s, k)
       ELSE b <= Len(s) /\ p[a] = s[b] /\ GlobAt(p, a + 1, s, b + 1)
RECURSIVE NoDup(_, _, _)
NoDup(p, a, acc) == IF a > Len(p) THEN acc
  ELSE NoDup(p, a + 1, IF p[a] = WILD /\ acc # <<>> /\ acc[Len(acc)] = WILD THEN acc ELSE Append(acc, p[a]))
TextOk(p, s) == IF p = s THEN TRUE
                ELSE IF \E k \in 1..Len(p) : p[k] = WILD THEN GlobAt(NoDup(p, 1, <<>>), 1, s, 1) ELSE FALSE

Diff(name, ok, want, got) == IF ok THEN {} ELSE {<<name, "spec", want, "impl", got>>}
DiffNow(ev) ==
  Diff("data stack", StkOk(VMS.ds, ev.n, ev.ds), Entries(VMS.ds), ev.ds)
  \cup Diff("float stack", StkOk(VMS.fs, ev.m, ev.fs), Entries(VMS.fs), ev.fs)
  \cup Diff("return stack depth", VMS.rfz \/ ~Stopped(VMS) \/ VMS.rs.n = ev.r, VMS.rs.n, ev.r)
  \cup Diff("compiling", VMS.comp = ev.comp, VMS.comp, ev.comp)
  \cup Diff("here", VMS.here = ev.here, VMS.here, ev.here)
  \cup Diff("error", VMS.err = ev.err, VMS.err, ev.err)
  \cup Diff("output", TextOk(VMS.out, ev.out), VMS.out, ev.out)
  \cup Diff("task", VMS.cur = ev.cur, VMS.cur, ev.cur)
  \cup Diff("source id", VMS.sid = ev.sid, VMS.sid, ev.sid)
DiffProbe(ev) ==
  DiffNow(ev) \cup Diff("source index", VMS.si = ev.si, VMS.si, ev.si)
TaskNow(k) == IF k = VMS.cur + 1 THEN TaskOf(VMS) ELSE VMS.t[k]
DirOf == {<<n, VMS.ino[VMS.dir[n]].b>> : n \in DOMAIN VMS.dir}
DiffDone(ev) ==
  DiffNow(ev)
  \cup Diff("flushed output", TextOk(VMS.std, ev.std), VMS.std, ev.std)
  \cup UNION {Diff("task stacks",
                   StkOk(TaskNow(k).ds, ev.tasks[k].n, ev.tasks[k].ds)
                   /\ StkOk(TaskNow(k).fs, ev.tasks[k].m, ev.tasks[k].fs),
                   <<k, Entries(TaskNow(k).ds)>>, <<k, ev.tasks[k].ds>>) : k \in 1..NTASKS}
  \cup Diff("awake", VMS.awake = [k \in 1..NTASKS |-> ev.tasks[k].awake], VMS.awake,
            [k \in 1..NTASKS |-> ev.tasks[k].awake])
  \cup (IF S.files THEN LET d == {<<ev.dir[k].n, ev.dir[k].b>> : k \in 1..Len(ev.dir)}
                        IN Diff("files", DirOf = d, DirOf, d) ELSE {})

\* from an accepted observation on: what the unknown floats are
RECURSIVE LearnR(_, _, _)
LearnR(s, xs, k) == IF k > s.n THEN s
                    ELSE LearnR(IF Slot(s, k - 1)[1] < 0 THEN PutSlot(s, k - 1, xs[k]) ELSE s, xs, k + 1)
Learn(m, ev) == IF m.fs.n > HALF \/ m.fs.n # ev.m THEN m ELSE [m EXCEPT !.fs = LearnR(m.fs, ev.fs, 1)]

Ev == S.ev[EVN + 1]
HaveEv == EVN + 1 <= Len(S.ev)

\* ----- actions of the host -----
Host(m, it) ==
  CASE it.op = "line" -> [SetLine(m, it.t) EXCEPT !.phase = "tok"]
    [] it.op = "reset" -> Reset(m)
    [] it.op = "clear" -> ClearStacks(m)
    [] it.op = "home" -> SwitchTo(m, 0)
    [] it.op = "put" ->
         IF it.n \in DOMAIN m.dir THEN SetIno(m, m.dir[it.n], it.b)
         ELSE [m EXCEPT !.ino = Append(m.ino, [b |-> it.b, n |-> 0]),
                        !.dir = (it.n :> (Len(m.ino) + 1)) @@ m.dir]
    [] it.op = "rm" -> [m EXCEPT !.dir = Force([x \in DOMAIN m.dir \ {it.n} |-> m.dir[x]])]
ClearOut(m) == [m EXCEPT !.out = <<>>, !.std = <<>>]
\* shell: the host feeds the next line
RECURSIVE Feed(_, _)
Feed(m, k) ==     \* <<machine, items begun>>
  IF k > Len(S.items) THEN <<[m EXCEPT !.ip = -1, !.ipr = Zero], k>>
  ELSE IF S.items[k].op = "line" THEN <<SetLine(m, S.items[k].t), k + 1>>
  ELSE Feed(Host(m, S.items[k]), k + 1)

Shell == S.mode = "shell"
Start == LET m == [Fresh(S.ev[1].start, S.handler) EXCEPT !.tm = S.ev[1].tm, !.tu = S.ev[1].tu]
         IN IF Shell THEN Exec([m EXCEPT !.phase = "solo"], XT("cold")) ELSE m

Init == /\ SC \in 1..Len(Traces)
        /\ EVN = 1 /\ ITEM = 0 /\ FUEL = 0
        /\ BUSY = (Traces[SC].mode = "shell")
        /\ IF Traces[SC].ev[1].k = "start" THEN VMS = Start /\ ST = "run"
           ELSE VMS = Fresh(Zero, 0) /\ ST = "rej"
             /\ PrintT(<<"REJECT", Traces[SC].id, 0, "no start", Traces[SC].ev[1]>>)

Stay == UNCHANGED <<SC, VMS, ITEM, BUSY>>
Reject(what) == /\ PrintT(<<"REJECT", S.id, IF ITEM = 0 THEN 1 ELSE ITEM, what>>)
                /\ ST' = "rej" /\ Stay /\ UNCHANGED <<EVN, FUEL>>
EvKind == IF HaveEv THEN Ev.k ELSE "nothing"
\* the process ended or hung somewhere behind the last event: right only if the
\* specification does not terminate either
Hung == EvKind \in {"hang", "crash"}
WrongEvent(want) == Reject(<<"expected", want, "but", IF HaveEv THEN Ev ELSE "nothing">>)

Skip_ == /\ VMS.bad # ""
         /\ PrintT(<<"SKIP", S.id, ITEM, VMS.bad>>)
         /\ ST' = "skip" /\ Stay /\ UNCHANGED <<EVN, FUEL>>

Probe == /\ VMS.bad = "" /\ VMS.probe = "p"
         /\ IF Hung THEN VMS' = [VMS EXCEPT !.probe = ""] /\ UNCHANGED <<SC, ITEM, BUSY, EVN, FUEL, ST>>
            ELSE IF EvKind # "p" THEN WrongEvent("probe")
            ELSE LET d == DiffProbe(Ev)
                 IN IF d # {} THEN Reject(d)
                    ELSE /\ VMS' = [Learn(VMS, Ev) EXCEPT !.probe = ""] /\ EVN' = EVN + 1
                         /\ UNCHANGED <<SC, ITEM, BUSY, FUEL, ST>>

Receive == /\ VMS.bad = "" /\ VMS.probe = "r"
           /\ IF EvKind # "r" /\ ~Hung THEN WrongEvent("request for input")
              ELSE LET d == IF Hung THEN {} ELSE DiffDone(Ev)
                       f == Feed([ClearOut(IF Hung THEN VMS ELSE Learn(VMS, Ev)) EXCEPT !.probe = ""], ITEM + 1)
                   IN IF d # {} THEN Reject(d)
                      ELSE /\ VMS' = f[1] /\ ITEM' = f[2] - 1 /\ EVN' = (IF Hung THEN EVN ELSE EVN + 1) /\ FUEL' = 0
                           /\ UNCHANGED <<SC, BUSY, ST>>

Compute == /\ VMS.bad = "" /\ VMS.probe = "" /\ BUSY /\ VMS.phase # "idle"
           /\ IF FUEL > (IF Hung THEN 24 ELSE MAXFUEL)
              THEN (IF Hung THEN /\ PrintT(<<"SKIP", S.id, ITEM, "endless loop">>)
                                 /\ ST' = "skip" /\ Stay /\ UNCHANGED <<EVN, FUEL>>
                    ELSE Reject("the specification does not terminate here"))
              ELSE /\ VMS' = RunK(VMS, BATCH) /\ FUEL' = FUEL + 1
                   /\ UNCHANGED <<SC, ITEM, BUSY, EVN, ST>>

Done == /\ VMS.bad = "" /\ VMS.probe = "" /\ BUSY /\ VMS.phase = "idle"
        /\ IF EvKind # "d" /\ ~Hung THEN WrongEvent("end of line")
           ELSE LET d == IF Hung THEN {} ELSE DiffDone(Ev)
                IN IF d # {} THEN Reject(d)
                   ELSE /\ VMS' = ClearOut(IF Hung THEN VMS ELSE Learn(VMS, Ev)) /\ EVN' = (IF Hung THEN EVN ELSE EVN + 1) /\ FUEL' = 0 /\ BUSY' = FALSE
                        /\ UNCHANGED <<SC, ITEM, ST>>

Begin == /\ VMS.bad = "" /\ VMS.probe = "" /\ ~BUSY
         /\ IF Shell \/ ITEM = Len(S.items)
            THEN /\ PrintT(<<"ACCEPT", S.id, EVN, HaveEv>>)
                 /\ ST' = (IF HaveEv THEN "rej" ELSE "ok") /\ Stay /\ UNCHANGED <<EVN, FUEL>>
            ELSE /\ VMS' = Host(VMS, S.items[ITEM + 1]) /\ ITEM' = ITEM + 1 /\ BUSY' = TRUE
                 /\ UNCHANGED <<SC, EVN, FUEL, ST>>

Next == ST = "run" /\ (Skip_ \/ Probe \/ Receive \/ Compute \/ Done \/ Begin)
Spec == Init /\ [][Next]_vars

View == <<SC, ITEM, BUSY, EVN, FUEL, ST>>

-----------------------------------------------------------------------------
(* Invariants of the specification, checked along every validated trace.     *)
StackShape(s) == s.n \in 0..(RING - 1)
TypeOK == /\ StackShape(VMS.ds) /\ StackShape(VMS.rs) /\ StackShape(VMS.cs) /\ StackShape(VMS.fs)
          /\ VMS.here \in H0..DSCap /\ VMS.cur \in 0..(NTASKS - 1)
=============================================================================
