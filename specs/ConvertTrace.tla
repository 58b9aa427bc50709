---------------------------- MODULE ConvertTrace ----------------------------
(* Recorded runs of the conversion tool: P23 (what is imported, written or   *)
(* refused) and P32 (what is reported about the data).                       *)
EXTENDS ConvertOps, HistoryOps, Dyadic, Civil, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
(* ---- the flags ---- *)
InputSet == {Case.inputs[i] : i \in DOMAIN Case.inputs}
Wanted == {o \in Outputs : Case.outs[o].want}
Broken == {o \in Outputs : Case.outs[o].broken}
Kind == KindOf(CHOOSE i \in InputSet : TRUE)
TimeOk(f) == f # <<>> /\ ValidDate(f[2], f[3], f[4]) /\ (HasTime(f[1]) => ValidTime(f[5], f[6], f[7]))
Default(f) == IF f.given THEN f.f ELSE f.default
Rel(d) == LET k == d[1] - Case.t0[1] IN
  IF k > 10000 THEN 1073741824 ELSE IF k < -10000 THEN -1073741824 ELSE k * 86400 + (d[2] - Case.t0[2])
Bound(f) == LET d == Denotes(f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]) IN
  IF d[1] < 0 \/ (d[1] = 0 /\ d[2] = 0) THEN <<>> ELSE <<Rel(d)>>
Lo == Bound(Default(Case.start))
Hi == Bound(Default(Case.stop))
(* ---- the records ---- *)
Ls == Case.lines
Positive(v) == Finite(v) /\ v[1] > 0       \* v is <<mantissa, exponent>>
NotNegative(v) == Finite(v) /\ v[1] >= 0
OhlcOk(v) == /\ \A i \in 1 .. 4 : Positive(v[i])
             /\ \A i \in {1, 2, 4} : DLe(F(v[3]), F(v[i]))
             /\ \A i \in {1, 3, 4} : DLe(F(v[i]), F(v[2]))
Valid(x) == CASE Kind = "price" -> Positive(x.v[1]) /\ NotNegative(x.v[2])
              [] Kind = "ohlc" -> OhlcOk(x.v) /\ NotNegative(x.v[5])
              [] Kind = "side" -> x.n > 0 /\ \A i \in DOMAIN x.v : Finite(x.v[i])
TimesOk == TimeOk(Default(Case.start)) /\ TimeOk(Default(Case.stop))
\* the tool as a machine over the lines
RECURSIVE Reads(_, _, _, _)
Reads(i, ks, lo, hi) ==
  IF i > Len(Ls) THEN [ok |-> TRUE, kept |-> ks]
  ELSE LET prev == IF ks = <<>> THEN <<>> ELSE <<ks[Len(ks)].t>>
           sig == IF ks = <<>> THEN 0 ELSE ks[Len(ks)].n
           v == Verdict(Ls[i], prev, sig, lo, hi, Kind, Valid)
       IN CASE v = "error" -> [ok |-> FALSE, kept |-> <<>>]
            [] v = "end" -> [ok |-> TRUE, kept |-> ks]
            [] v = "skip" -> Reads(i + 1, ks, lo, hi)
            [] v = "keep" -> Reads(i + 1, Append(ks, Ls[i]), lo, hi)
Accepts == TimesOk /\ Case.rate > 0 /\ Selects(InputSet) /\ Case.readable
Outcome == IF Accepts THEN Reads(1, <<>>, TLCEval(Lo), TLCEval(Hi)) ELSE [ok |-> FALSE, kept |-> <<>>]
Rec(x) == [t |-> x.t, v |-> x.v]
(* ---- P23 ---- *)
BadFile(o, kept) ==
  LET f == Case.outs[o] IN
  IF ~f.want THEN {}
  ELSE IF kept = <<>> \/ o \notin Produces(Kind) THEN If(f.st # "untouched", <<"output written without records", o, f.st>>)
  ELSE IF f.st # "file" THEN {<<"output not written", o, f.st>>}
  ELSE IF o = Kind THEN If([i \in DOMAIN f.recs |-> Rec(f.recs[i])] # [i \in DOMAIN kept |-> Rec(kept[i])], <<"records", o, Len(f.recs), Len(kept)>>)
  ELSE {}     \* the resampling: checked by HistoryTrace
BadRun ==
  LET r == Outcome
      mustfail == r.ok /\ r.kept # <<>> /\ Wanted \intersect Broken \intersect Produces(Kind) # {}
  IN IF ~r.ok THEN
       If(Case.code = 0, <<"success although the input or the flags are wrong">>)
       \union {<<"output written on an error", o, Case.outs[o].st>> : o \in {o \in Outputs \ Broken : Case.outs[o].st # "untouched"}}
     ELSE IF mustfail THEN If(Case.code = 0, <<"a failed write is reported as success">>)
     ELSE If(Case.code # 0, <<"valid input refused">>)
          \union UNION {BadFile(o, r.kept) : o \in Outputs \ Broken}
          \union If(Case.claimed /\ [i \in DOMAIN Case.kept |-> Rec(Case.kept[i])] # [i \in DOMAIN r.kept |-> Rec(r.kept[i])], <<"records resampled">>)
(* ---- P32: the report ---- *)
Ts == [i \in DOMAIN Case.kept |-> Case.kept[i].t]
Clock(t) == LET d == Normalize(Case.t0[1], Case.t0[2] + t) IN FormatUTC(d[1], d[2])
Span(s) == ToString(s \div 3600) \o ":" \o Pad2((s \div 60) % 60) \o ":" \o Pad2(s % 60)
Decimal(n, k, x) == LET u == IF k = 2 THEN 200 ELSE 20000 IN Near(DMul(D(2), Make(n.s, n.d, 0)), DMul(D(u), x), D(1), 0)
Rp == Case.report
BadReport ==
  LET out == TLCEval(Outcome) IN
  IF ~out.ok \/ Case.code # 0 THEN {} ELSE
  If([i \in DOMAIN Case.kept |-> Rec(Case.kept[i])] # [i \in DOMAIN out.kept |-> Rec(out.kept[i])], <<"claimed records">>)
  \union If(Rp.loaded # <<Len(Case.kept)>>, <<"number of records", Rp.loaded, Len(Case.kept)>>)
  \union (IF Kind # "price" THEN {} ELSE
    LET want == TLCEval(TopGaps(Ts, <<>>, <<>>, Case.topn))
        wantlines == [i \in DOMAIN want |-> <<want[i][1], Clock(want[i][1]), want[i][2], Clock(want[i][2]), Span(want[i][2] - want[i][1])>>]
    IN If(Rp.gaps # wantlines, <<"gaps", Rp.gaps, wantlines>>))
  \union (IF Kind # "price" \/ Case.kept = <<>> \/ ~Case.outs["ohlc"].want THEN {} ELSE
    LET ctx == TLCEval(ContextOf(Case.idx, Len(Case.kept), 5, 5, Case.lastn))
        order == TLCEval(SelectSeq(TLCEval([k \in 1 .. 2 * Len(Case.kept) |-> <<(k - 1) \div 2, k % 2 = 1>>]), LAMBDA x : x \in ctx))
        \* one printed line for every record of the context
        bad == {k \in DOMAIN order : LET i == order[k][1] + 1
                                         x == Case.kept[i] IN
                  k \in DOMAIN Rp.lines /\
                  ~(/\ Rp.lines[k].x = order[k][2] /\ Rp.lines[k].t = x.t /\ Rp.lines[k].at = Clock(x.t)
                    /\ Decimal(Rp.lines[k].p, 2, F(x.v[1])) /\ Decimal(Rp.lines[k].v, 4, F(x.v[2])))}
    IN If(Rp.removed # <<Len(Case.idx)>>, <<"number of outliers", Rp.removed, Len(Case.idx)>>)
       \union If(Len(Rp.lines) # Len(order), <<"outliers and their context", Len(Rp.lines), Len(order)>>)
       \union {<<"outlier line", Rp.lines[k], order[k]>> : k \in bad}
       \union If(Rp.resampled # <<Len(Case.kept) - Len(Case.idx), Case.nticks>>, <<"resampled", Rp.resampled, Len(Case.kept) - Len(Case.idx), Case.nticks>>))
Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE IF l = 0 THEN {} ELSE IF PROP = "P23" THEN BadRun ELSE BadReport
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l = 0 /\ Case.crash = "" /\ l' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, code |-> Case.code, bad |-> Bad]
=============================================================================
