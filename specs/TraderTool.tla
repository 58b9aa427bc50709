----------------------------- MODULE TraderTool -----------------------------
(* The trader tool as a whole: flags, loading and checking of the histories, *)
(* evaluation of one trader with its logs or of a batch, reporting; files    *)
(* that cannot be read or opened and log devices that fail.  Times are       *)
(* months, so that a period of n months spans n time units.                  *)
EXTENDS Integers, Sequences, FiniteSets, TraderToolOps
CONSTANTS Times, MaxLen, Bounds, Months, Top, Traders
VARIABLES flags, ohlc, side,                    \* chosen by the environment
          phase, pos, sel, sidesel, periods, report, files, code
env == <<flags, ohlc, side>>
vars == <<env, phase, pos, sel, sidesel, periods, report, files, code>>

RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in SeqsOf(S, n - 1), x \in S}
Recs(oks, ns) == {[t |-> t, pos |-> t > 0, ok |-> o, n |-> n] : t \in Times, o \in oks, n \in ns}
Histories(oks, ns, len) == UNION {SeqsOf(Recs(oks, ns), k) : k \in 0 .. len}
Bound == {<<b>> : b \in Bounds} \union {<<>>}
Logs == {"exchange", "trader"}
Good == [trader |-> TRUE, balances |-> TRUE, times |-> TRUE, lo |-> <<>>, hi |-> <<>>, months |-> 0, batch |-> FALSE, logs |-> {}, broken |-> {}]
Readable(rs) == [given |-> TRUE, readable |-> TRUE, recs |-> rs]
Absent == [given |-> FALSE, readable |-> FALSE, recs |-> <<>>]
Some == Readable(<<[t |-> 1, pos |-> TRUE, ok |-> TRUE, n |-> 1], [t |-> 2, pos |-> TRUE, ok |-> TRUE, n |-> 1]>>)
Flags1 == {[Good EXCEPT !.lo = l, !.hi = h, !.months = m, !.batch = b] : l \in Bound, h \in Bound, m \in Months, b \in BOOLEAN}
Flags2 == {[Good EXCEPT !.trader = t, !.balances = a, !.times = i, !.months = m, !.batch = b, !.logs = g, !.broken = k] :
             t \in BOOLEAN, a \in BOOLEAN, i \in BOOLEAN, m \in Months, b \in BOOLEAN, g \in SUBSET Logs, k \in SUBSET Logs}
\* where the environment can vary without limits, it does so one aspect at a time
Init ==
  /\ \/ flags \in Flags1 /\ ohlc \in {Readable(r) : r \in Histories(BOOLEAN, {1}, MaxLen)} /\ side = Absent
     \/ flags \in Flags1 /\ ohlc = Some /\ side \in {Readable(r) : r \in Histories({TRUE}, {1, 2}, MaxLen - 1)}
     \/ flags \in Flags2 /\ ohlc \in {Some, Readable(<<>>)} /\ side \in {Absent, Some}
     \/ flags \in {Good, [Good EXCEPT !.batch = TRUE]} /\ ohlc \in {Some, [Some EXCEPT !.readable = FALSE], Absent}
        /\ side \in {Some, [Some EXCEPT !.readable = FALSE], Absent}
  /\ phase = "flags" /\ pos = 1 /\ sel = <<>> /\ sidesel = <<>> /\ periods = <<>> /\ report = <<>> /\ code = 0
  /\ files = [l \in Logs |-> <<"old">>]

Fail == phase' = "done" /\ code' = 1 /\ UNCHANGED <<pos, sel, sidesel, periods, report, files>>
Go(p) == phase' = p /\ pos' = 1 /\ UNCHANGED <<sel, sidesel, periods, report, files, code>>
ParseFlags == phase = "flags" /\ UNCHANGED env /\ IF flags.trader /\ flags.balances /\ flags.times THEN Go("ohlc") ELSE Fail
Range(rs) == Selected(rs, flags.lo, flags.hi)
Prev(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
LoadOhlc == phase = "ohlc" /\ UNCHANGED env /\
  IF ~ohlc.given \/ ~ohlc.readable THEN Fail
  ELSE LET rs == Range(ohlc.recs) IN
       IF pos > Len(rs) THEN Go("side")
       ELSE IF OhlcVerdict(rs[pos], Prev(sel)) = "error" THEN Fail
       ELSE pos' = pos + 1 /\ sel' = Append(sel, rs[pos]) /\ UNCHANGED <<phase, sidesel, periods, report, files, code>>
LoadSide == phase = "side" /\ UNCHANGED env /\
  LET next == IF flags.batch THEN "batch" ELSE "exchange" IN
  IF ~side.given THEN Go(next) ELSE IF ~side.readable THEN Fail
  ELSE LET rs == Range(side.recs) IN
       IF pos > Len(rs) THEN Go(next)
       ELSE IF SideVerdict(rs[pos], Prev(sidesel)) = "error" THEN Fail
       ELSE pos' = pos + 1 /\ sidesel' = Append(sidesel, rs[pos]) /\ UNCHANGED <<phase, sel, periods, report, files, code>>
\* logs exist only for a single period; opening truncates
Open(l, next) == phase = l /\ UNCHANGED env /\
  IF l \notin flags.logs THEN Go(next)
  ELSE IF flags.months > 0 THEN Fail
  ELSE files' = [files EXCEPT ![l] = <<>>] /\ phase' = next /\ pos' = 1 /\ UNCHANGED <<sel, sidesel, periods, report, code>>
\* the windows: a start that is not given is the beginning of time, 1
From == IF flags.lo = <<>> THEN 1 ELSE flags.lo[1]
Until == IF flags.hi = <<>> THEN 9 ELSE flags.hi[1]
Window(k) == IF flags.months > 0 THEN <<From + k, From + k + flags.months>> ELSE <<From, Until>>
In(rs, w) == SelectSeq(rs, LAMBDA r : r.t >= w[1] /\ r.t < w[2])
Evaluate == phase = "evaluate" /\ UNCHANGED env /\
  LET w == Window(pos - 1) IN
  IF w[2] > Until \/ (flags.months = 0 /\ pos > 1)
  THEN phase' = "report" /\ UNCHANGED <<pos, sel, sidesel, periods, report, files, code>>
  ELSE LET ts == In(sel, w) IN
       /\ periods' = IF ts = <<>> THEN periods ELSE Append(periods, [w |-> w, ticks |-> ts, side |-> sidesel])
       /\ files' = [l \in Logs |-> IF l \in flags.logs THEN files[l] \o ts ELSE files[l]]
       /\ pos' = pos + 1 /\ UNCHANGED <<phase, sel, sidesel, report, code>>
\* a result is reported, then the logs are closed: what a broken device did not take is noticed
Report == phase = "report" /\ UNCHANGED env /\ report' = periods /\ phase' = "done"
  /\ code' = (IF \E l \in flags.logs \intersect flags.broken : files[l] # <<>> THEN 1 ELSE 0)
  /\ files' = [l \in Logs |-> IF l \in flags.logs \intersect flags.broken /\ files[l] # <<>> THEN <<"broken">> ELSE files[l]]
  /\ UNCHANGED <<pos, sel, sidesel, periods>>
\* batch: the printed traders are picked best first
Score(w) == (w * (1 + Len(sel))) % 3
Better(i, j) == Score(i) > Score(j)
BatchStep == phase = "batch" /\ UNCHANGED env /\
  LET left == {i \in 1 .. Traders : \A k \in DOMAIN report : report[k] # i} IN
  IF Len(report) = Top \/ left = {} THEN phase' = "done" /\ UNCHANGED <<pos, sel, sidesel, periods, report, files, code>>
  ELSE \E i \in left : (\A j \in left : ~Better(j, i)) /\ report' = Append(report, i) /\ UNCHANGED <<phase, pos, sel, sidesel, periods, files, code>>
Next == ParseFlags \/ LoadOhlc \/ LoadSide \/ Open("exchange", "trader") \/ Open("trader", "evaluate") \/ Evaluate \/ Report \/ BatchStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
WrongInput ==
  \/ ~flags.trader \/ ~flags.balances \/ ~flags.times
  \/ ~ohlc.given \/ ~ohlc.readable \/ OhlcRefused(Range(ohlc.recs))
  \/ side.given /\ (~side.readable \/ SideRefused(Range(side.recs)))
  \/ ~flags.batch /\ flags.logs # {} /\ flags.months > 0
LogLost == \E l \in Logs : files[l] = <<"broken">>
\* wrong input is an error and nothing is reported
FailsLoudly == Done /\ WrongInput => code = 1 /\ report = <<>>
NoSilentLoss == Done /\ LogLost => code = 1
OnlyReasons == Done /\ code = 1 => WrongInput \/ LogLost
\* the report speaks about the selected records only, every window with records once, in order
ReportsSelected == Done /\ ~WrongInput /\ ~flags.batch =>
  /\ \A i \in DOMAIN report : report[i].ticks = In(Range(ohlc.recs), report[i].w) /\ report[i].side = (IF side.given THEN Range(side.recs) ELSE <<>>)
  /\ \A i \in DOMAIN report : i > 1 => report[i - 1].w[1] < report[i].w[1]
  /\ flags.months = 0 => Len(report) = (IF Range(ohlc.recs) = <<>> THEN 0 ELSE 1)
  /\ flags.months > 0 => \A k \in 0 .. 9 : (Window(k)[2] <= Until /\ In(Range(ohlc.recs), Window(k)) # <<>>) <=> \E i \in DOMAIN report : report[i].w = Window(k)
RanksTraders == Done /\ ~WrongInput /\ flags.batch => Ranked(report, Traders, Top, Better)
\* requested logs of a successful evaluation hold it completely; nothing else is written
LogsComplete == Done /\ code = 0 => \A l \in Logs :
  files[l] = IF l \in flags.logs /\ ~flags.batch THEN Range(ohlc.recs) ELSE <<"old">>
Terminates == <>Done
=============================================================================
