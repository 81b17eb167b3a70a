-------------------------------- MODULE DefMC --------------------------------
(***************************************************************************)
(* Defining words.  All histories of making instances with the defining    *)
(* words of the system and of the user, and of storing into them; after    *)
(* every operation every instance delivers what the reference says: a list *)
(* of instances, each with its value and its own stretch of data space.    *)
(***************************************************************************)
EXTENDS Host
CONSTANTS MAXLEN, OPS
VARIABLES QSEQ,      \* the operations done
          QI,        \* the instances: [k, v, w, a, f]: kind, values, address of its data, action
          QL,        \* the lines fed
          QM,        \* the machine
          QE         \* an operation went wrong
SIZE == [c |-> 0, v |-> 8, cc |-> 0, vv |-> 16, fc |-> 0, fv |-> 8, cr |-> 2, cu |-> 16, fd |-> 0, de |-> 0, us |-> 8, ux |-> 16]
Made == {"c", "v", "cc", "vv", "fc", "fv", "cr", "cu", "fd", "de", "us", "ux"}
Storable == {"v", "vv", "fv", "cr", "cu", "ux"}
Nm(i) == "i" \o ToString(i)
\* the floating-point values 1.5, 2.5, ...
FNum(i) == FAdd(FInt(i), FEnc(0, 1, -1))
FTxt(i) == ToString(i) \o ".5e"
Rf(k, v, w) == [k |-> k, v |-> v, w |-> w, a |-> <<>>]
\* the line that makes instance i of a kind with values x and x + 1
MakeLine(k, i, x) ==
  LET n == Nm(i) s == ToString(x) t == ToString(x + 1)
  IN CASE k = "c" -> s \o " constant " \o n
       [] k = "v" -> "variable " \o n
       [] k = "cc" -> s \o " " \o t \o " 2constant " \o n
       [] k = "vv" -> "2variable " \o n
       [] k = "fc" -> FTxt(x) \o " fconstant " \o n
       [] k = "fv" -> "fvariable " \o n
       [] k = "cr" -> "create " \o n \o " " \o s \o " c, " \o t \o " c,"
       [] k = "cu" -> "create " \o n \o " " \o s \o " , " \o t \o " ,"
       [] k = "fd" -> s \o " 7 +field " \o n
       [] k = "de" -> "defer " \o n
       [] k = "us" -> s \o " mk " \o n
       [] OTHER -> s \o " " \o t \o " mx " \o n
MakeRef(k, x) ==
  CASE k \in {"v", "vv", "fv", "de"} -> Rf(k, 0, 0) [] k = "us" -> Rf(k, x, 0) [] k = "ux" -> Rf(k, x + 1, x) [] OTHER -> Rf(k, x, x + 1)
\* the line that stores x, x + 1 in instance i, and what is in it then
StoreLine(r, i, x) ==
  LET n == Nm(i) s == ToString(x) t == ToString(x + 1)
  IN CASE r.k = "v" -> s \o " " \o n \o " !"
       [] r.k = "vv" -> t \o " " \o s \o " " \o n \o " 2!"
       [] r.k = "fv" -> FTxt(x) \o " " \o n \o " f!"
       [] r.k = "cr" -> s \o " " \o n \o " c! " \o t \o " " \o n \o " 1+ c!"
       [] r.k = "cu" -> t \o " " \o n \o " cell+ !"
       [] OTHER -> s \o " ' " \o n \o " >body !"
StoreRef(r, x) == CASE r.k = "cu" -> [r EXCEPT !.w = x + 1] [] r.k = "ux" -> [r EXCEPT !.v = x] [] OTHER -> [r EXCEPT !.v = x, !.w = x + 1]
\* the line that observes instance i, and the data and float stacks it leaves on empty ones
LookLine(r, i) ==
  LET n == Nm(i)
  IN CASE r.k \in {"c", "cc", "fc", "us"} -> n
       [] r.k = "v" -> n \o " @" [] r.k = "vv" -> n \o " 2@" [] r.k = "fv" -> n \o " f@"
       [] r.k = "cr" -> n \o " c@ " \o n \o " char+ c@"
       [] r.k = "cu" -> n \o " @ " \o n \o " cell+ @"
       [] r.k = "fd" -> "40 " \o n
       [] r.k = "de" -> "3 4 " \o n
       [] OTHER -> "9 " \o n
I2(a, b) == <<FromInt(a), FromInt(b)>>
LookData(r) ==
  CASE r.k \in {"c", "v"} -> <<FromInt(r.v)>>
    [] r.k = "cc" -> I2(r.v, r.w)
    [] r.k = "vv" -> I2(r.w, r.v)
    [] r.k \in {"cr", "cu"} -> I2(r.v, r.w)
    [] r.k = "fd" -> <<FromInt(40 + r.v)>>
    [] r.k = "de" -> IF r.v = 0 THEN I2(3, 4) ELSE IF r.v % 2 = 0 THEN <<FromInt(3), FromInt(4), FromInt(4)>> ELSE <<FromInt(7)>>
    [] r.k = "us" -> <<FromInt(r.v + 1)>>
    [] r.k = "ux" -> <<FromInt(9), FromInt(r.v + r.w)>>
    [] OTHER -> <<>>
LookFloat(r) == CASE r.k = "fc" -> <<FNum(r.v)>> [] r.k = "fv" -> <<IF r.v = 0 THEN FZero(0) ELSE FNum(r.v)>> [] OTHER -> <<>>
\* the last instance that can be stored in / first one / newest deferred word
Ixs(S) == {i \in 1..Len(QI) : QI[i].k \in S}
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
Addr0(m, i) == LET x == Feed(Recover(m), S2B("' " \o Nm(i) \o " >body")) IN Entries(x.ds)
Base0 == FeedAll(Boot, <<": mk create , does> @ 1+ ;", ": mx create , , does> dup @ swap cell+ @ + ;">>, 1)
Init == QSEQ = <<>> /\ QI = <<>> /\ QL = <<>> /\ QM = Base0 /\ QE = ""
Go(o, line, inst(_)) ==
  LET m == Feed(QM, S2B(line))
      r == inst(m)
  IN /\ QSEQ' = Append(QSEQ, o)
     /\ QL' = Append(QL, line)
     /\ QM' = Recover(m)
     /\ QI' = r
     /\ QE' = IF m.bad # "" THEN m.bad ELSE IF m.err # 0 THEN "raises an exception"
              ELSE IF Entries(m.ds) # (IF o = "fd" THEN <<FromInt(107 + Len(QSEQ))>> ELSE <<>>) \/ Entries(m.fs) # <<>>
              THEN "leaves something" ELSE ""
Next ==
  /\ Len(QSEQ) < MAXLEN
  /\ QE = ""
  /\ LET x == 100 + Len(QSEQ) n == Len(QI) + 1
     IN \E o \in OPS :
          IF o \in Made
          THEN Go(o, MakeLine(o, n, x) ,
                  LAMBDA m : Append(QI, [MakeRef(o, x) EXCEPT !.a = Addr0(m, n)]))
          ELSE CASE o = "odd" -> Go(o, "3 allot", LAMBDA m : QI)
                 [] o = "code" -> Go(o, ": w 1 2 3 ;", LAMBDA m : QI)
                 [] o = "last" -> LET S == Ixs(Storable)
                                  IN S # {} /\ LET i == MaxOf(S) IN Go(o, StoreLine(QI[i], i, x), LAMBDA m : [QI EXCEPT ![i] = StoreRef(QI[i], x)])
                 [] o = "first" -> LET S == Ixs(Storable)
                                   IN Cardinality(S) > 1 /\ LET i == MinOf(S) IN Go(o, StoreLine(QI[i], i, x), LAMBDA m : [QI EXCEPT ![i] = StoreRef(QI[i], x)])
                 [] OTHER -> LET S == Ixs({"de"})
                             IN S # {} /\ LET i == MinOf(S)
                                IN Go(o, "' " \o (IF x % 2 = 0 THEN "dup" ELSE "+") \o " ' " \o Nm(i) \o " defer!", LAMBDA m : [QI EXCEPT ![i].v = x])
View == QSEQ
NoError == QE = ""
\* every instance delivers what its defining word and the later stores say
RECURSIVE LookAll(_, _)
LookAll(i, m) ==
  IF i > Len(QI) THEN TRUE
  ELSE LET x == Feed(Recover(m), S2B(LookLine(QI[i], i)))
       IN /\ x.err = 0 /\ x.bad = ""
          /\ Entries(x.ds) = LookData(QI[i])
          /\ Entries(x.fs) = LookFloat(QI[i])
          /\ LookAll(i + 1, m)
Deliver == QE # "" \/ LookAll(1, QM)
\* every instance has its own aligned data
Off(i) == OffOf(QM, QI[i].a[1])
Own == \A i \in 1..Len(QI) :
         LET o == Off(i)
         IN /\ Len(QI[i].a) = 1
            /\ o % 8 = 0 /\ o >= H0 /\ o + SIZE[QI[i].k] <= QM.here
            /\ \A j \in 1..(i - 1) : Off(j) + SIZE[QI[j].k] <= o
Emitted == Len(QSEQ) = MAXLEN => PrintT(<<"SCRIPT", QL, [i \in 1..Len(QI) |-> LookLine(QI[i], i)]>>)
=============================================================================
