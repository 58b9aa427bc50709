-------------------------- MODULE ConvertBulkTrace --------------------------
(* Conversions of long regular histories (P23, P32): record i (from 0) has   *)
(* the time i * step after T0, a price that repeats with period 4 and the    *)
(* volume 1, so that the expected files are given by a few numbers.  The     *)
(* recorded files are run-length encoded.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)
\* the records of [lo, hi): indices first .. upto - 1
First == IF Case.lo = <<>> THEN 0 ELSE Min(Case.n, Max(0, CeilDiv(Case.lo[1], Case.step)))
Upto == IF Case.hi = <<>> THEN Case.n ELSE Max(First, Min(Case.n, CeilDiv(Case.hi[1], Case.step)))
Kept == Upto - First
Time(i) == i * Case.step
\* T0 is a multiple of the sampling rate: tick k covers [k * rate, (k + 1) * rate)
Tick(i) == Time(i) \div Case.rate
NTicks == IF Kept = 0 THEN 0 ELSE Tick(Upto - 1) - Tick(First) + 1
InTick(k) == LET a == Max(First, CeilDiv(k * Case.rate, Case.step))
                 b == Min(Upto, CeilDiv((k + 1) * Case.rate, Case.step)) IN Max(0, b - a)
TickOk(r) == \* r: from tick r.k on, r.len ticks of the volume r.v
  /\ r.len > 0 /\ InTick(r.k) = r.v /\ InTick(r.k + r.len - 1) = r.v
  /\ (r.len > 2 => InTick(r.k + 1) = r.v /\ InTick(r.k + r.len - 2) = r.v)
BadFile ==
  LET f == Case.file IN
  If(f.st # "file", <<"file", f.st>>)
  \union If(f.n # Kept, <<"number of records", f.n, Kept>>)
  \* equal to the record of the input at the same place, one by one
  \union If(f.same # Kept, <<"first record that differs", f.same>>)
BadTicks ==
  LET f == Case.ticks IN
  If(f.st # "file", <<"ticks", f.st>>)
  \union If(f.n # NTicks, <<"number of ticks", f.n, NTicks>>)
  \union If(f.regular # f.n, <<"first tick off the grid", f.regular>>)
  \union If(f.n > 0 /\ f.first # Tick(First), <<"first tick", f.first, Tick(First)>>)
  \union {<<"volume of ticks", r>> : r \in {f.runs[i] : i \in {i \in DOMAIN f.runs : ~TickOk(f.runs[i])}}}
Bad23 == If(Case.code # 0, <<"valid input refused">>) \union BadFile \union (IF Case.ticks.want THEN BadTicks ELSE {})
Gaps == Min(Case.topn, Max(0, Kept - 1))
Bad32 ==
  If(Case.loaded # <<Kept>>, <<"number of records", Case.loaded, Kept>>)
  \union (IF Case.kind # "price" THEN {} ELSE
            If(Len(Case.gaps) # Gaps, <<"number of gaps", Len(Case.gaps), Gaps>>)
            \* all are equally long: the earliest are reported
            \union {<<"gap", i, Case.gaps[i]>> : i \in {i \in DOMAIN Case.gaps : Case.gaps[i] # <<Time(First + i - 1), Time(First + i)>>}})
  \union (IF ~Case.ticks.want THEN {} ELSE
            If(Case.removed # <<0>>, <<"outliers", Case.removed>>)
            \union If(Case.resampled # <<Kept, NTicks>>, <<"resampled", Case.resampled, Kept, NTicks>>))
Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE IF l = 0 THEN {} ELSE IF PROP = "P23" THEN Bad23 ELSE Bad32
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l = 0 /\ Case.crash = "" /\ l' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, first |-> First, upto |-> Upto, bad |-> Bad]
=============================================================================
