--------------------------- MODULE IndicatorsTrace ---------------------------
(* Recorded indicators against Indicators and Aggregate (P26-P30).          *)
EXTENDS Indicators, FiniteSets, TLC, SequencesExt, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, st, bad
vars == <<c, l, st, bad>>
Case == Cases[c]
K == Case.kind
If(b, x) == IF b THEN {x} ELSE {}
FinAll(r) == \A i \in DOMAIN r : Finite(r[i])
Within(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
Times(n, a) == DMul(D(n), a)
Whole24(x) == x.s = 0 \/ (x.e >= 0 /\ Len(x.d) + x.e <= 2)
AsTick(x) == [b |-> (x.t + Case.off) \div Case.period, o |-> F(x.o), h |-> F(x.h), l |-> F(x.l), c |-> F(x.c), v |-> F(x.v), k |-> 1]
Out(s, b) == [st |-> s, bad |-> b]

(* ---- P26 ---- *)
TickFinite(t) == FinAll(<<t.o, t.h, t.l, t.c, t.v>>)
Same(p, t) == /\ t.t = p.b * Case.period - Case.off /\ TickFinite(t)
              /\ F(t.o) = p.o /\ F(t.h) = p.h /\ F(t.l) = p.l /\ F(t.c) = p.c
              /\ Near(F(t.v), p.v, Times(p.k + 1, p.v), 23)
Listening == {k \in {"updated", "added", "removed"} : (Case.mask \div (IF k = "updated" THEN 1 ELSE IF k = "added" THEN 2 ELSE 4)) % 2 = 1}
CallOk(s, x) == /\ s.kind = x.k /\ Len(s.old) = Len(x.old) /\ (s.old # <<>> => Same(s.old[1], x.old[1]))
                /\ Same(s.new, x.new) /\ x.size = Len(s.win) /\ x.top
AggDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), Case.n)
      want == SelectSeq(ss, LAMBDA y : y.kind \in Listening)
      win == ss[Len(ss)].win
  IN Out([win |-> win],
         If(~(Len(win) = Len(e.win) /\ \A i \in DOMAIN win : Same(win[i], e.win[i])), <<"window of periods", e.win>>)
         \union If(~(Len(want) = Len(e.calls) /\ \A i \in DOMAIN want : CallOk(want[i], e.calls[i])), <<"notifications", e.calls>>))

(* ---- P27 ---- *)
Sq(x) == DMul(x, x)
\* after Case.burn[1] values (small whole numbers) of which Case.burn[2] are in the window
WinStart == LET vs == [i \in DOMAIN Case.burn[2] |-> F(Case.burn[2][i])]
                s == IF Case.n = 0 THEN F(Case.burn[3]) ELSE DSum(vs)     \* an unlimited window: the sums over all values
                s2 == IF Case.n = 0 THEN F(Case.burn[4]) ELSE DSum([i \in DOMAIN vs |-> Sq(vs[i])])
            IN [vals |-> vs, s |-> s, s2 |-> s2, sa |-> s, p1 |-> DMul(D(2), s), p2 |-> DMul(D(2), s2), ops |-> Case.burn[1], exact |-> TRUE, num |-> Case.burn[1]]
WinDo(s, e) ==
  LET v == F(e.v)
      add == e.op = "a"
      full == Case.n > 0 /\ Len(s.vals) = Case.n
      gone == IF add THEN (IF full THEN s.vals[1] ELSE Zero) ELSE s.vals[Len(s.vals)]
      vals == Put(s.vals, IF add THEN "added" ELSE "updated", v, IF Case.n = 0 THEN 1000000 ELSE Case.n)
      sum == DSub(DAdd(s.s, v), gone)
      sum2 == DSub(DAdd(s.s2, Sq(v)), Sq(gone))
      sa == DSub(DAdd(s.sa, DAbs(v)), DAbs(gone))
      p1 == DMax(s.p1, DAdd(sa, DAbs(gone)))
      p2 == DMax(s.p2, DAdd(sum2, Sq(gone)))
      exact == s.exact /\ Whole24(v) /\ Whole24(p1) /\ Whole24(p2)
      ops == s.ops + 1
      num == IF add THEN s.num + 1 ELSE s.num
      n == IF Case.n = 0 THEN num ELSE Len(vals)
      e1 == IF exact THEN Zero ELSE DHalf(Times(ops + 2, p1), 23)
      e2 == IF exact THEN Zero ELSE DHalf(Times(ops + 2, p2), 23)
      mn == F(e.r[1])
      mx == F(e.r[2])
      mean == F(e.r[3])
      var == F(e.r[4])
      sd == F(e.r[5])
      lim == IF Case.n = 0 THEN 1 ELSE Case.n
      small(k) == IF num < k THEN num ELSE k
      tail == SubSeq(vals, Len(vals) - small(lim) + 1, Len(vals))
  IN Out([vals |-> vals, s |-> sum, s2 |-> sum2, sa |-> sa, p1 |-> p1, p2 |-> p2, ops |-> ops, exact |-> exact, num |-> num],
     IF ~FinAll(e.r) THEN {<<"not a number", e.r>>} ELSE
       If(~(\A i \in DOMAIN tail : DLe(mn, tail[i])) \/ ~(\E i \in DOMAIN tail : mn = tail[i]), <<"minimum", e.r[1]>>)
       \union If(~(\A i \in DOMAIN tail : DLe(tail[i], mx)) \/ ~(\E i \in DOMAIN tail : mx = tail[i]), <<"maximum", e.r[2]>>)
       \union If(~Within(Times(n, mean), sum, DAdd(e1, DHalf(DAbs(sum), 22))), <<"mean", e.r[3]>>)
       \union If(var.s < 0 \/ sd.s < 0, <<"negative", e.r>>)
       \union If(~Within(Times(n, Times(n, var)), DSub(Times(n, sum2), Sq(sum)),
                         DAdd(DHalf(DAdd(Sq(sum), Times(n, sum2)), 21), DAdd(Times(n, e2), DAdd(DMul(Times(2, DAbs(sum)), e1), Sq(e1))))),
                 <<"variance", e.r[4]>>)
       \union If(~Close(Sq(sd), var, 21), <<"standard deviation", e.r[5]>>)
       \union If(e.n # <<num, num, num, n, small(lim), small(lim)>>, <<"counts", e.n>>))

(* ---- P28 ---- *)
Fold(f(_, _), s, ss, i) == FoldLeft(f, s, ss)
TopClose(win) == Hi([i \in DOMAIN win |-> [win[i] EXCEPT !.h = win[i].c]])
SmaDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), Case.n)
      win == ss[Len(ss)].win
      top == DMax(s.top, TopClose(win))
      ops == s.ops + Len(ss)
      sum == SumClose(win)
      exact == s.exact /\ Whole24(F(e.x.c)) /\ Whole24(Times(Case.n + 1, top))
      tol == IF exact THEN Zero ELSE DHalf(Times(ops + 2, Times(Case.n + 1, top)), 23)
  IN Out([win |-> win, top |-> top, ops |-> ops, exact |-> exact],
     IF ~FinAll(e.r) THEN {<<"not a number", e.r>>} ELSE
       If(~Within(Times(Len(win), F(e.r[1])), sum, DAdd(tol, DHalf(sum, 22))), <<"simple moving average", e.r[1]>>)
       \union If(e.n # <<Len(win)>>, <<"count", e.n>>))
\* the observed value replaces the computed one; only skipped periods are computed
Seen(en, v) == [en EXCEPT !.cur = v]
\* 2^-120: values below the normal range of single precision
EmaOk(en, v, scale, steps) == Within(v, en.cur, DAdd(DBin(1, -120), DHalf(Times(steps + 1, scale), 21)))
\* steps since a value was last observed, on which the current one rests
Slack(s, ss) == IF ss[Len(ss)].kind = "updated" THEN s.k ELSE Len(ss)
Mag(en, x) == DMax(DMax(DAbs(en.prev), DAbs(en.cur)), DAbs(x))
EmaDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), 1)
      w == Weight(F(Case.cfg), Case.n)
      en == Fold(LAMBDA y, z : EmaStep(y, z.kind, z.new.c, w), s.e, ss, 1)
  IN Out([win |-> ss[Len(ss)].win, e |-> IF FinAll(e.r) THEN Seen(en, F(e.r[1])) ELSE en, k |-> Slack(s, ss)],
     IF ~FinAll(e.r) THEN {<<"not a number", e.r>>} ELSE
       If(~EmaOk(en, F(e.r[1]), Mag(en, F(e.x.c)), Slack(s, ss)), <<"exponential moving average", e.r[1]>>)
       \union If(e.n # <<en.num>>, <<"count", e.n>>))
EmahDo(s, e) ==
  LET en == EmaStep(s.e, IF e.op = "a" THEN "added" ELSE "updated", F(e.v), F(e.w))
  IN Out([e |-> IF FinAll(e.r) THEN Seen(en, F(e.r[1])) ELSE en],
     IF ~FinAll(e.r) THEN {<<"not a number", e.r>>} ELSE
       If(~EmaOk(en, F(e.r[1]), DMax(DAbs(en.prev), DAbs(F(e.v))), 1), <<"average of the values", e.r[1]>>)
       \union If(e.n # <<en.num>>, <<"count", e.n>>))
MacdDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), 1)
      wf == Weight(D(2), Case.cfg[1])
      ws == Weight(D(2), Case.cfg[2])
      wg == Weight(D(2), Case.cfg[3])
      r == [i \in DOMAIN e.r |-> F(e.r[i])]
      step(y, z) == LET f == EmaStep(y.f, z.kind, z.new.c, wf)
                        q == EmaStep(y.q, z.kind, z.new.c, ws)
                    IN [f |-> f, q |-> q, g |-> EmaStep(y.g, z.kind, DSub(f.cur, q.cur), wg)]
      y == Fold(step, [f |-> s.f, q |-> s.q, g |-> s.g], ss, 1)
      f == Seen(y.f, r[1])
      q == Seen(y.q, r[2])
      \* the signal follows the reported series
      g == EmaStep(IF Len(ss) = 1 THEN s.g ELSE [y.g EXCEPT !.num = @ - 1, !.cur = y.g.prev], ss[Len(ss)].kind, r[3], wg)
      loose == Len(ss) > 1 \/ (s.loose /\ ss[1].kind = "updated")
      gs == IF loose THEN Mag(y.f, F(e.x.c)) ELSE DMax(DAbs(g.prev), DAbs(r[3]))
  IN IF ~FinAll(e.r) THEN Out(s, {<<"not a number", e.r>>})
     ELSE Out([win |-> ss[Len(ss)].win, f |-> f, q |-> q, g |-> Seen(g, r[4]), loose |-> loose, k |-> Slack(s, ss)],
       If(~EmaOk(y.f, r[1], Mag(y.f, F(e.x.c)), Slack(s, ss)), <<"fast average", e.r[1]>>)
       \union If(~EmaOk(y.q, r[2], Mag(y.q, F(e.x.c)), Slack(s, ss)), <<"slow average", e.r[2]>>)
       \union If(~Close(r[3], DSub(r[1], r[2]), 22), <<"series", e.r>>)
       \union If(~EmaOk(g, r[4], gs, Slack(s, ss)), <<"signal", e.r[4]>>)
       \union If(~Close(r[5], DSub(r[3], r[4]), 22), <<"divergence", e.r>>)
       \union If(e.n # <<y.f.num>>, <<"count", e.n>>))

(* ---- P29 ---- *)
Micro == F(<<8796093, -43>>)     \* 1.0e-6f
Hundred == D(100)
Verge(x, y) == Close(x, y, 20)
RsiDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), 2)
      step(y, z) == LET num == IF z.kind = "updated" THEN y.u.num ELSE y.u.num + 1
                        w == MoveWeight(num, Case.n)
                    IN [u |-> EmaStep(y.u, z.kind, Up(z.win), w), d |-> EmaStep(y.d, z.kind, Down(z.win), w)]
      y == Fold(step, [u |-> s.u, d |-> s.d], ss, 1)
      u == F(e.r[1])
      d == F(e.r[2])
      x == F(e.r[3])
      win == ss[Len(ss)].win
      still == DLt(u, Micro) /\ DLt(d, Micro)
      stillMay == (DLt(u, Micro) \/ Verge(u, Micro)) /\ (DLt(d, Micro) \/ Verge(d, Micro))
      rising == DLt(d, DMul(u, Micro))
      risingMay == rising \/ Verge(d, DMul(u, Micro))
      ratio == Within(DMul(x, DAdd(u, d)), DMul(Hundred, u), DHalf(DMul(Hundred, DAdd(u, d)), 20))
      big == DMax(DAbs(Move(win)), DMax(y.u.prev, y.d.prev))
  IN IF ~FinAll(e.r) THEN Out(s, {<<"not a number", e.r>>})
     ELSE Out([win |-> win, u |-> Seen(y.u, u), d |-> Seen(y.d, d), k |-> Slack(s, ss)],
       If(~EmaOk(y.u, u, DMax(y.u.prev, Up(win)), Slack(s, ss)), <<"upward average", e.r[1]>>)
       \union If(~EmaOk(y.d, d, DMax(y.d.prev, Down(win)), Slack(s, ss)), <<"downward average", e.r[2]>>)
       \union If(u.s < 0 \/ d.s < 0, <<"negative average", e.r>>)
       \union If(DLt(x, Zero) \/ ~(DLe(x, Hundred) \/ Close(x, Hundred, 21)), <<"out of range", e.r[3]>>)
       \union If(~((stillMay /\ x = D(50)) \/ (~still /\ risingMay /\ x = Hundred) \/ (~still /\ ratio)), <<"relative strength index", e.r>>)
       \union If(e.n # <<y.u.num>>, <<"count", e.n>>))
\* %K of a window, and whether an observed value is it
KCalc(win) == LET span == DSub(Hi(win), Lo(win)) IN
  IF DLt(span, Micro) THEN D(50) ELSE Keep(DDiv(DMul(Hundred, DSub(win[Len(win)].c, Lo(win))), span, 40))
KOk(win, x) == LET span == DSub(Hi(win), Lo(win)) IN
  \/ (DLt(span, Micro) \/ Verge(span, Micro)) /\ x = D(50)
  \/ ~DLt(span, Micro) /\ Within(DMul(x, span), DMul(Hundred, DSub(win[Len(win)].c, Lo(win))), DHalf(DMul(Hundred, span), 21))
InRange(x, tol) == DLe(DNeg(tol), x) /\ DLe(x, DAdd(Hundred, tol))
SoDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), Case.n)
      last == ss[Len(ss)]
      k == F(e.r[3])
      \* averages over the last three periods, computed for skipped periods
      step(y, z) == LET ks == Put(y.ks, z.kind, IF z = last THEN k ELSE KCalc(z.win), 3)
                        m == DDivN(DSum(ks), Len(ks), -7)
                    IN [ks |-> ks, ds |-> Put(y.ds, z.kind, m, 3)]
      y == Fold(step, [ks |-> s.ks, ds |-> s.ds], ss, 1)
      ops == s.ops + Len(ss)
      tol == DBin(ops + 2, -15)
      tol2 == DBin(ops + 2, -14)
      num == s.num + Cardinality({i \in DOMAIN ss : ss[i].kind # "updated"})
  IN IF ~FinAll(e.r) THEN Out(s, {<<"not a number", e.r>>})
     ELSE Out([win |-> last.win, ks |-> y.ks, ds |-> [y.ds EXCEPT ![Len(y.ds)] = F(e.r[4])], ops |-> ops, num |-> num],
       If(F(e.r[1]) # Lo(last.win), <<"low", e.r[1]>>) \union If(F(e.r[2]) # Hi(last.win), <<"high", e.r[2]>>)
       \union If(~KOk(last.win, k), <<"%K", e.r[3]>>)
       \union If(~InRange(k, DBin(1, -14)), <<"%K out of range", e.r[3]>>)
       \union If(~Within(F(e.r[4]), y.ds[Len(y.ds)], tol) \/ ~InRange(F(e.r[4]), tol), <<"fast %D", e.r[4]>>)
       \union If(~Within(Times(Len(y.ds), F(e.r[5])), DSum([y.ds EXCEPT ![Len(y.ds)] = F(e.r[4])]), Times(3, tol2)) \/ ~InRange(F(e.r[5]), tol2), <<"slow %D", e.r[5]>>)
       \union If(e.n # <<num>>, <<"count", e.n>>))

(* ---- P30 ---- *)
VolStart == [pv |-> <<>>, rs |-> <<>>, s |-> Zero, s2 |-> Zero, p2 |-> Zero, ops |-> 0]
Ret(pv) == IF pv[1] = pv[2] THEN Zero ELSE DTrunc(DLnRatio(pv[1], pv[2]), -5)
VolStep(s, z, b, q, w) ==
  LET pv == PvStep(s.pv, z.kind, z.new, b, q)
      r == Ret(pv)
      gone == IF z.kind = "updated" THEN s.rs[Len(s.rs)] ELSE IF w > 0 /\ Len(s.rs) = w THEN s.rs[1] ELSE Zero
      s2 == DSub(DAdd(s.s2, Sq(r)), Sq(gone))
  IN [pv |-> pv, rs |-> Put(s.rs, z.kind, r, IF w = 0 THEN 1000000 ELSE w), s |-> DSub(DAdd(s.s, r), gone), s2 |-> s2,
      p2 |-> DMax(s.p2, DAdd(s2, Sq(gone))), ops |-> s.ops + 1]
RECURSIVE MaxTo(_, _), MinTo(_, _)
MaxTo(r, i) == IF i = 1 THEN r[1] ELSE DMax(MaxTo(r, i - 1), r[i])
MinTo(r, i) == IF i = 1 THEN r[1] ELSE DMin(MinTo(r, i - 1), r[i])
\* v^2 is `years` times the variance of the returns
VolOk(s, v, years) ==
  LET n == Len(s.rs)
      range == DSub(MaxTo(s.rs, n), MinTo(s.rs, n))
      delta == DBin(1, -21)
      \* n^2 times the tolerance on the variance
      tol == DAdd(Times(n * n, DAdd(DMul(range, delta), Sq(delta))), DHalf(Times(n * (s.ops + 4), s.p2), 22))
      nv == DSub(Times(n, s.s2), Sq(s.s))
  IN v.s >= 0 /\ IF n = 0 THEN v = Zero ELSE Within(Times(n * n, Sq(v)), Times(years, nv), DAdd(Times(years, tol), DHalf(Times(years, nv), 19)))
VolDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), 2)
      v == Fold(LAMBDA y, z : VolStep(y, z, F(e.b), F(e.q), Case.n), s.v, ss, 1)
      num == s.num + Cardinality({i \in DOMAIN ss : ss[i].kind # "updated"})
  IN Out([win |-> ss[Len(ss)].win, v |-> v, num |-> num],
     IF ~FinAll(e.r) THEN {<<"not a number", e.r>>} ELSE
       If(~VolOk(v, F(e.r[1]), 1), <<"volatility", e.r[1]>>) \union If(e.n # <<num>>, <<"count", e.n>>))
\* both portfolios of a report; the values are in the report of the period
ReportDo(s, e) ==
  LET ss == A!Steps(s.win, AsTick(e.x), 2)
      v == Fold(LAMBDA y, z : VolStep(y, z, One, Zero, 0), s.v, ss, 1)
      t == Fold(LAMBDA y, z : VolStep(y, z, F(e.b), F(e.q), 0), s.t, ss, 1)
  IN Out([win |-> ss[Len(ss)].win, v |-> v, t |-> t], {})
ReportEnd(s) ==
  IF Case.fast THEN If((Case.hb /\ Case.bv # <<0, 0>>) \/ (Case.ht /\ Case.tv # <<0, 0>>), <<"volatility in a fast evaluation">>)
  ELSE If(~FinAll(<<Case.bv, Case.tv>>), <<"not a number", Case.bv, Case.tv>>)
       \union (IF FinAll(<<Case.bv, Case.tv>>) THEN
                 If(~Case.hb \/ ~VolOk(s.v, F(Case.bv), 365), <<"annual volatility of holding", Case.bv>>)
                 \union If(~Case.ht \/ ~VolOk(s.t, F(Case.tv), 365), <<"annual volatility of the trader", Case.tv>>) ELSE {})

\* before the recorded ticks: Case.burn[1] flat periods at the price Case.burn[2]; `after` is what was reported then
NoBurn == K \in {"win", "emah", "report"} \/ Case.burn = <<>>
Gone == IF NoBurn THEN 0 ELSE Case.burn[1]
P0 == IF NoBurn THEN Zero ELSE F(Case.burn[2])
FlatWin(n) ==
  LET m == MinI(Gone, n)
      b0 == (Case.ev[1].x.t + Case.off) \div Case.period
  IN [i \in 1 .. m |-> [b |-> b0 - (m - i) - 1, o |-> P0, h |-> P0, l |-> P0, c |-> P0, v |-> One, k |-> 1]]
Steady(i) == IF NoBurn THEN EmaNone ELSE [num |-> Gone, prev |-> F(Case.after[i]), cur |-> F(Case.after[i])]
Same3(n, x) == [i \in 1 .. MinI(Gone, n) |-> x]
\* what is reported after flat periods
AfterBurn ==
  IF NoBurn \/ K = "agg" THEN {} ELSE
  LET a == [i \in DOMAIN Case.after |-> F(Case.after[i])]
      near(i, x) == Within(a[i], x, DHalf(P0, 12))
      ok == CASE K = "sma" -> a = <<P0>>
              [] K = "ema" -> near(1, P0)
              [] K = "macd" -> near(1, P0) /\ near(2, P0) /\ \A i \in 3 .. 5 : near(i, Zero)
              [] K = "rsi" -> a = <<Zero, Zero, D(50)>>
              [] K = "so" -> a = <<P0, P0, D(50), D(50), D(50)>>
              [] K = "vol" -> a = <<Zero>>
  IN If(~FinAll(Case.after) \/ ~ok, <<"after flat periods", Case.after>>)
Start ==
  CASE K = "agg" -> [win |-> FlatWin(Case.n)]
    [] K = "win" -> WinStart
    [] K = "sma" -> [win |-> FlatWin(Case.n), top |-> P0, ops |-> 0, exact |-> TRUE]
    [] K = "ema" -> [win |-> FlatWin(1), e |-> Steady(1), k |-> 0]
    [] K = "emah" -> [e |-> EmaNone]
    [] K = "macd" -> [win |-> FlatWin(1), f |-> Steady(1), q |-> Steady(2), g |-> Steady(4), loose |-> FALSE, k |-> 0]
    [] K = "rsi" -> [win |-> FlatWin(2), u |-> Steady(1), d |-> Steady(2), k |-> 0]
    [] K = "so" -> [win |-> FlatWin(Case.n), ks |-> Same3(3, D(50)), ds |-> Same3(3, D(50)), ops |-> 0, num |-> Gone]
    [] K = "vol" -> [win |-> FlatWin(2), num |-> Gone,
                     v |-> IF NoBurn THEN VolStart ELSE [VolStart EXCEPT !.pv = <<P0, P0>>, !.rs = Same3(Case.n, Zero)]]
    [] K = "report" -> [win |-> <<>>, v |-> VolStart, t |-> VolStart]
Do(s, e) ==
  CASE K = "agg" -> AggDo(s, e) [] K = "win" -> WinDo(s, e) [] K = "sma" -> SmaDo(s, e) [] K = "ema" -> EmaDo(s, e)
    [] K = "emah" -> EmahDo(s, e) [] K = "macd" -> MacdDo(s, e) [] K = "rsi" -> RsiDo(s, e) [] K = "so" -> SoDo(s, e)
    [] K = "vol" -> VolDo(s, e) [] K = "report" -> ReportDo(s, e)
\* before the first step
First == IF K = "report" THEN {}
         ELSE If(Case.n0 # 0, <<"count before the first value", Case.n0>>) \union If(~FinAll(Case.init), <<"not a number", Case.init>>)
              \union If(K = "win" /\ \E i \in DOMAIN Case.init : Case.init[i] # <<0, 0>>, <<"statistics of nothing", Case.init>>)
Accepted == bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0 /\ st = <<>> /\ bad = (IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE {})
Next ==
  /\ bad = {} /\ l <= Len(Case.ev) + 1 /\ l' = l + 1 /\ UNCHANGED c
  /\ IF l = 0 THEN st' = Start /\ bad' = First \union AfterBurn
     ELSE IF l <= Len(Case.ev) THEN LET o == Do(st, Case.ev[l]) IN st' = o.st /\ bad' = o.bad
     ELSE st' = st /\ bad' = (IF K = "report" THEN ReportEnd(st) ELSE {})
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l - 1, event |-> IF l - 1 \in DOMAIN Case.ev THEN Case.ev[l - 1] ELSE <<>>, bad |-> bad, state |-> st]
=============================================================================
