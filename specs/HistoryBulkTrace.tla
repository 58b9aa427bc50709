-------------------------- MODULE HistoryBulkTrace --------------------------
(* P19-P22 on histories far longer than any state space: n records every 60  *)
(* seconds, with silences before a few of them (marks: <<position, extra     *)
(* seconds>>) and isolated spikes of the price.  What the functions mean on  *)
(* such a history follows from these numbers; positions count from 0, times  *)
(* are relative to T0, a multiple of the sampling rate.  Record i has the    *)
(* price rank i % 4 (0 .. 3, a spike is 4) and the volume 1.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
N == Case.n
Marks == Case.marks
Step == 60
\* segment j (from 0) begins at a mark; its records are Step apart
SegFrom(j) == IF j = 0 THEN 0 ELSE Marks[j][1]
SegTo(j) == IF j = Len(Marks) THEN N - 1 ELSE Marks[j + 1][1] - 1
RECURSIVE Extra(_)
Extra(j) == IF j = 0 THEN 0 ELSE Extra(j - 1) + Marks[j][2]
SegOf(i) == Cardinality({j \in DOMAIN Marks : Marks[j][1] <= i})
Time(i) == i * Step + Extra(SegOf(i))
\* the number of records before time t
RECURSIVE Below(_, _)
Below(t, j) == IF j < 0 THEN 0
  ELSE Below(t, j - 1) + Max(0, Min(SegTo(j) - SegFrom(j) + 1, CeilDiv(t - (SegFrom(j) * Step + Extra(j)), Step)))
At(t) == Below(t, Len(Marks))
(* ---- P22 ---- *)
Bad22 ==
  LET from == IF Case.s = <<>> THEN 0 ELSE At(Case.s[1])
      upto == IF Case.e = <<>> THEN N ELSE Max(from, At(Case.e[1])) IN
  UNION {If(Case.sel[k].n # upto - from \/ (upto > from /\ Case.sel[k].from # from) \/ ~Case.sel[k].copy, <<"selection", k, Case.sel[k], from, upto>>) : k \in DOMAIN Case.sel}
(* ---- P21: of equally long gaps the earlier; the marks are longer ---- *)
MarkPos == {Marks[j][1] : j \in DOMAIN Marks}
Bad21 ==
  LET q == Min(Case.top, N - 1) - Len(Marks)
      plain == {i \in 1 .. q + Len(Marks) : i \notin MarkPos /\ i - Cardinality({m \in MarkPos : m < i}) <= q}
      want == {<<Time(i - 1), Time(i)>> : i \in plain \union MarkPos}
      got == Case.gaps IN
  If(Len(got) # q + Len(Marks), <<"number of gaps", Len(got), q + Len(Marks)>>)
  \union If({got[i] : i \in DOMAIN got} # want, <<"gaps", {got[i] : i \in DOMAIN got} \ want>>)
  \union {<<"order of gaps", i>> : i \in {i \in 1 .. Len(got) - 1 : got[i][1] >= got[i + 1][1]}}
(* ---- P20 ---- *)
Last == LET s == Case.spikes IN IF Case.lastn = 0 \/ Len(s) <= Case.lastn THEN s ELSE SubSeq(s, Len(s) - Case.lastn + 1, Len(s))
Bad20 ==
  LET o == TLCEval(Last) IN
  If(Case.idx # Case.spikes, <<"removed", Len(Case.idx), Len(Case.spikes)>>)
  \union If(Case.nclean # N - Len(Case.spikes), <<"records kept", Case.nclean>>)
  \union If(Case.same # Case.nclean, <<"kept record that differs", Case.same>>)
  \union If(~Case.agree, <<"with and without indices">>)
  \* the context: runs of positions, and the positions marked in it
  \union If(Case.marked # o, <<"positions marked", Len(Case.marked), Len(o)>>)
  \union If(Case.ctx # [i \in DOMAIN o |-> <<Max(0, o[i] - Case.left), Min(N - 1, o[i] + Case.right)>>], <<"context", Len(Case.ctx)>>)
(* ---- P19 ---- *)
Rate == Case.rate
NTicks == Time(N - 1) \div Rate + 1
Price(i) == IF \E k \in DOMAIN Case.spikes : Case.spikes[k] = i THEN 4 ELSE i % 4
TickOk(r, k) ==
  LET a == At(k * Rate)
      b == At((k + 1) * Rate) IN
  IF a = b THEN r.v = 0 /\ r.o = Price(a - 1) /\ r.h = r.o /\ r.l = r.o /\ r.c = r.o
  ELSE LET ps == {Price(i) : i \in a .. b - 1} IN
       r.v = b - a /\ r.o = Price(a) /\ r.c = Price(b - 1) /\ (\A p \in ps : r.l <= p /\ p <= r.h) /\ r.l \in ps /\ r.h \in ps
Bad19 ==
  If(Case.nticks # NTicks, <<"number of ticks", Case.nticks, NTicks>>)
  \union If(Case.regular # Case.nticks, <<"first tick off the grid", Case.regular>>)
  \union {<<"tick", r>> : r \in {Case.runs[i] : i \in {i \in DOMAIN Case.runs :
            LET x == Case.runs[i] IN ~(TickOk(x, x.k) /\ TickOk(x, x.k + x.len - 1) /\ TickOk(x, x.k + x.len \div 2))}}}
Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE IF l = 0 THEN {} ELSE
  CASE PROP = "P19" -> Bad19 [] PROP = "P20" -> Bad20 [] PROP = "P21" -> Bad21 [] OTHER -> Bad22
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l = 0 /\ Case.crash = "" /\ l' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, bad |-> Bad]
=============================================================================
