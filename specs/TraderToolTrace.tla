--------------------------- MODULE TraderToolTrace ---------------------------
(* Recorded runs of the trader tool (P25).  want: what evaluating the        *)
(* selected records with the account of the flags gives; got: what the tool  *)
(* printed (numbers as integers of their last printed digit).                *)
EXTENDS TraderToolOps, EvaluateOps, Dyadic, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
(* ---- the flags ---- *)
TimeOk(f) == f # <<>> /\ ValidDate(f[2], f[3], f[4]) /\ (HasTime(f[1]) => ValidTime(f[5], f[6], f[7]))
Given(f) == IF f.given THEN f.f ELSE f.default
At0(f) == Denotes(f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8])
Rel(d) == LET k == d[1] - Case.d0 IN
  IF k > 10000 THEN 1073741824 ELSE IF k < -10000 THEN -1073741824 ELSE k * 86400 + d[2]
Unbounded(d) == d[1] < 0 \/ (d[1] = 0 /\ d[2] = 0)
Start == At0(Given(Case.start))
Stop == At0(Given(Case.stop))
Lo == IF Unbounded(Start) THEN <<>> ELSE <<Rel(Start)>>
Hi == IF Unbounded(Stop) THEN <<>> ELSE <<Rel(Stop)>>
NotNegative(v) == Finite(v) /\ F(v).s >= 0
Positive(v) == Finite(v) /\ F(v).s = 1
FlagsOk ==
  /\ Case.trader \in {"stop", "rebalancing"}
  /\ NotNegative(Case.base) /\ NotNegative(Case.quote) /\ (Positive(Case.base) \/ Positive(Case.quote))
  /\ TimeOk(Given(Case.start)) /\ TimeOk(Given(Case.stop))
(* ---- the data ---- *)
OhlcOk(v) == /\ \A i \in 1 .. 4 : Positive(v[i])
             /\ \A i \in {1, 2, 4} : DLe(F(v[3]), F(v[i]))
             /\ \A i \in {1, 3, 4} : DLe(F(v[i]), F(v[2]))
Tick(x) == [t |-> x.t, pos |-> x.pos, n |-> 0, v |-> x.v, ok |-> OhlcOk(x.v) /\ NotNegative(x.v[5])]
Ticks == TLCEval(LET lo == Lo hi == Hi IN Selected(Case.ohlc.recs, lo, hi))
Sides == TLCEval(LET lo == Lo hi == Hi IN Selected(Case.side.recs, lo, hi))
\* record by record, as the tool does (TraderToolMC: the same as the definition over the whole selection)
Before(rs, i) == IF i = 1 THEN <<>> ELSE <<rs[i - 1]>>
BadTicks(rs) == \E i \in DOMAIN rs : OhlcVerdict(Tick(rs[i]), Before(rs, i)) = "error"
BadSides(rs) == \E i \in DOMAIN rs : SideVerdict(rs[i], Before(rs, i)) = "error"
Logs == {"exchange", "trader"}
Wants(k) == Case.logs[k].want # "no"
Wrong(ticks, sides) ==
  \/ ~FlagsOk
  \/ ~Case.ohlc.readable \/ BadTicks(ticks)
  \/ Case.side.given /\ (~Case.side.readable \/ BadSides(sides))
  \/ ~Case.batch /\ \E k \in Logs : Wants(k) /\ (Case.months > 0 \/ Case.logs[k].want = "unopenable")
Lost == ~Case.batch /\ \E k \in Logs : Case.logs[k].want = "full" /\ Case.want[k].size > 0
(* ---- the report ---- *)
ClockText(d) == FormatUTC(d[1], d[2])
Clock(t) == LET d == Normalize(Case.d0, t) IN ClockText(d)
Cfg == [s |-> Rel(Start), e |-> Rel(Stop), n |-> Case.months, d0 |-> Case.d0,
        s0 |-> Case.months <= 0 /\ Lo = <<>>, e0 |-> Case.months <= 0 /\ Hi = <<>>]
Fed1(ticks) == TLCEval(LET g == TLCEval(Cfg) IN Fed(g, [i \in DOMAIN ticks |-> <<ticks[i].t>>]))
Begin(w) == IF Case.months <= 0 THEN ClockText(Start) ELSE Clock(w.s)
End(w) == IF Case.months <= 0 THEN ClockText(Stop) ELSE Clock(w.e)
Big(n) == n > 1000000000 \/ n < -1000000000
\* p printed as n (in units of 1/u) for the number x * y^-1, computed with a few roundings
Printed(p, u, x, y) ==
  IF ~Finite(x) \/ ~Finite(y) THEN ~p.fin
  ELSE p.fin /\ (Big(p.n) \/
    LET want == DMul(D(2 * u), F(x))
        got == DMul(D(2 * p.n), F(y))
    IN DLe(DAbs(DSub(want, got)), DAdd(DAbs(F(y)), DMul(DBin(1, -22), DAbs(want)))))
One == <<1, 0>>
\* a gain g is printed in percent: (g - 1) * 100
PrintedGain(p, g) ==
  IF ~Finite(g) THEN ~p.fin
  ELSE p.fin /\ (Big(p.n) \/ LET want == DMul(D(20000), DSub(F(g), D(1))) IN
    DLe(DAbs(DSub(want, D(2 * p.n))), DAdd(D(1), DMul(DBin(1, -22), DAbs(want)))))
BadPeriod(i, win) ==
  LET p == Case.got.periods[i]
      w == Case.want.periods[i] IN
  If(p.s # Begin(win) \/ p.e # End(win), <<"period", i, p.s, p.e>>)
  \union If(~PrintedGain(p.g, w.g), <<"trader gain", i, p.g, w.g>>)
  \union If(~PrintedGain(p.bg, w.bg), <<"base gain", i, p.bg, w.bg>>)
  \union If(F(w.bg).s > 0 /\ ~Printed(p.sc, 1000, w.g, w.bg), <<"score", i, p.sc, w.g, w.bg>>)
  \union If(~Printed(p.tv, 1000, w.tv, One), <<"trader volatility", i, p.tv, w.tv>>)
  \union If(~Printed(p.bv, 1000, w.bv, One), <<"base volatility", i, p.bv, w.bv>>)
BadLog(k) ==
  LET f == Case.got.files[k] IN
  IF ~Wants(k) THEN {}
  ELSE IF Case.batch THEN If(f.st # "untouched", <<"log written in batch mode", k>>)
  ELSE IF Case.logs[k].want # "file" THEN {}
  ELSE If(f.st # "file" \/ f.dig # Case.want[k].dig, <<"log", k, f.st>>)
BadSingle(ticks) ==
  LET W == Fed1(ticks) IN
  IF Len(Case.got.periods) # Len(W) \/ Len(Case.want.periods) # Len(W) THEN {<<"number of periods", Len(Case.got.periods), Len(W)>>}
  ELSE If(Case.got.name # Case.want.name, <<"trader", Case.got.name>>)
       \union UNION {BadPeriod(i, W[i]) : i \in DOMAIN W} \union UNION {BadLog(k) : k \in Logs}
(* ---- batch mode ---- *)
Alphas == {"0.100", "0.300", "0.500", "0.700", "0.900"}
Epsilons == {"0.010", "0.050", "0.100", "0.200"}
Margins == {"0.050", "0.100", "0.150", "0.200"}
Speeds == {"0.010", "0.050", "0.100"}
BatchNames == IF Case.trader = "rebalancing" THEN {"rebalancing-trader[" \o a \o "|" \o e \o "]" : a \in Alphas, e \in Epsilons}
  ELSE {"stop-trader[" \o m \o "|" \o v \o "|" \o i \o "|" \o d \o "]" : m \in Margins, v \in Margins, i \in Speeds, d \in Speeds}
All == Case.want.batch
Shown == Case.got.batch
Index(nm) == IF \E i \in DOMAIN All : All[i].name = nm THEN CHOOSE i \in DOMAIN All : All[i].name = nm ELSE 0
BadBatch ==
  LET idx == [k \in DOMAIN Shown |-> Index(Shown[k].name)]
      Better(i, j) == ~DLe(F(All[i].score), F(All[j].score))
  IN IF {All[i].name : i \in DOMAIN All} # BatchNames THEN {<<"batch">>}
     ELSE IF \E k \in DOMAIN idx : idx[k] = 0 THEN {<<"trader not in the batch", Shown>>}
     ELSE If(~Ranked(idx, Len(All), 20, Better), <<"not the best traders, best first", Shown>>)
          \union {<<"score", Shown[k], All[idx[k]].score>> : k \in {k \in DOMAIN idx : ~Printed(Shown[k].score, 100000, All[idx[k]].score, One)}}
          \union UNION {BadLog(k) : k \in Logs}
RangeText == <<ClockText(Start), ClockText(Stop)>>
Loaded(ticks, sides) == <<[loaded |-> Len(Case.ohlc.recs), selected |-> Len(ticks), range |-> RangeText]>>
          \o (IF Case.side.given THEN <<[loaded |-> Len(Case.side.recs), selected |-> Len(sides), range |-> RangeText]>> ELSE <<>>)
BadRun ==
  LET ticks == Ticks
      sides == IF FlagsOk THEN Sides ELSE <<>>
  IN IF IF FlagsOk THEN Wrong(ticks, sides) ELSE TRUE THEN
       If(Case.code = 0, <<"success although the flags or the data are wrong">>)
       \union If(Case.got.periods # <<>> \/ Case.got.batch # <<>>, <<"results reported on an error">>)
     ELSE IF [i \in DOMAIN Case.sel |-> Case.ohlc.recs[Case.sel[i]]] # ticks THEN {<<"records evaluated by the driver">>}
     ELSE IF Lost THEN If(Case.code = 0, <<"a log that could not be written is reported as success">>)
     ELSE IF Case.code # 0 THEN {<<"valid input refused">>}
     ELSE If(Case.got.loaded # Loaded(ticks, sides), <<"records loaded and selected", Case.got.loaded, Loaded(ticks, sides)>>)
          \union (IF Case.batch THEN BadBatch ELSE BadSingle(ticks))
Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE IF l = 0 THEN {} ELSE BadRun
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l = 0 /\ Case.crash = "" /\ l' = 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, code |-> Case.code, bad |-> Bad]
=============================================================================
