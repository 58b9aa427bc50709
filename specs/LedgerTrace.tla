---------------------------- MODULE LedgerTrace ----------------------------
(* Conformance of recorded account executions with Ledger.  One case = one *)
(* account configuration and a sequence of events executed by the real     *)
(* code.  After each event the specification account is re-synchronised    *)
(* with the observed one, so that every event is judged on its own.        *)
EXTENDS LedgerOps, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP

VARIABLES c, l, acct
vars == <<c, l, acct>>

Case == Cases[c]
Cfg == Case.cfg
Ev == Case.ev[l]
Obs(e) == [b |-> e.b, q |-> e.q, f |-> e.f]

\* --- judging one event: acct is the account before, e the event -----------
Exact == Cfg.tol = 0
Grid(e) == /\ Cfg.bu > 0 => e.b % Cfg.bu = 0
           /\ Cfg.qu > 0 => e.q % Cfg.qu = 0 /\ e.f % Cfg.qu = 0
StartOnGrid(s) == /\ Cfg.bu > 0 => s.b % Cfg.bu = 0
                  /\ Cfg.qu > 0 => s.q % Cfg.qu = 0 /\ s.f % Cfg.qu = 0
FeeOf(s, e) == e.f - s.f
BaseMoved(s, e) == IF e.o.sd = "BUY" THEN e.b - s.b ELSE s.b - e.b
Exchanged(s, e) == IF e.o.sd = "BUY" THEN s.q - e.q - FeeOf(s, e) ELSE e.q - s.q + FeeOf(s, e)
\* Interval of the traded base amount as observed (rounding of the record).
BaseI(s, e) == LET n == BaseMoved(s, e) IN
  IF Exact \/ Cfg.bu > 0 THEN Point(n) ELSE <<Max2(0, n - Err(1, Max2(s.b, e.b))), n + Err(1, Max2(s.b, e.b))>>
\* Allowance for an observed difference of quote balances.
Slack(s, e) == IF Exact \/ Cfg.qu > 0 THEN 0 ELSE 2 * Err(1, Max2(s.q, e.q)) + Err(1, e.f)
Spread(I, k) == <<I[1] - k, I[2] + k>>

BadP01(s, e) ==
  {<<"negative-or-undefined", e.b, e.q, e.f>> : x \in IF e.b >= 0 /\ e.q >= 0 /\ e.f >= 0 /\ ~e.nan THEN {} ELSE {1}}
  \union {<<"fee-decreased", s.f, e.f>> : x \in IF e.f >= s.f THEN {} ELSE {1}}
  \union {<<"refused-order-changed-account">> : x \in IF ~e.ok /\ e.ch THEN {1} ELSE {}}
BadP02(s, e) ==
  IF ~e.ok \/ ~StartOnGrid(s) THEN {} ELSE
  LET P == ExecPrice(Cfg, e.o, e.t)
      B == BaseI(s, e)
      C == Exchanged(s, e)
      want == IF e.o.sd = "BUY" THEN BuyCost(Cfg, B, P) ELSE SellProceeds(Cfg, B, P)
  IN {<<"wrong-direction">> : x \in IF BaseMoved(s, e) > 0 \/ (~Exact /\ B[2] > 0) THEN {} ELSE {1}}
     \union {<<"amount-times-price", C, want>> : x \in IF In(C, Spread(want, Slack(s, e))) THEN {} ELSE {1}}
     \union {<<"not-exact">> : x \in IF Exact /\ ~e.ex THEN {1} ELSE {}}
BadP03(s, e) ==
  IF ~e.ok \/ ~StartOnGrid(s) THEN {} ELSE
  LET C == Exchanged(s, e)
      want == Fee(Cfg, Cfg.fees[e.o.ty], Spread(Point(C), Slack(s, e)))
  IN {<<"fee", FeeOf(s, e), want>> : x \in IF In(FeeOf(s, e), Spread(want, Slack(s, e))) THEN {} ELSE {1}}
BadP04(s, e) ==
  IF ~e.ok \/ ~StartOnGrid(s) THEN {} ELSE
  LET P == ExecPrice(Cfg, e.o, e.t)
      B == BaseI(s, e)
      C == Exchanged(s, e)
      u == Max2(1, Cfg.qu)
      k == Slack(s, e) + Err(Cfg.tol, C)
  IN {<<"not-triggered">> : x \in IF Triggered(e.o, e.t) THEN {} ELSE {1}}
     \union {<<"price", C, B, P>> : x \in
        IF (C - u - k) * P[2] < B[2] * P[1] /\ (C + u + k) * P[2] > B[1] * P[1] THEN {} ELSE {1}}
BadP05(s, e) ==
  LET r == Outcome(Cfg, s, e.o, e.t) IN
  IF ~StartOnGrid(s) THEN {} ELSE
  {<<"filled-but-must-not", r>> : x \in IF e.ok /\ ~r.may THEN {1} ELSE {}}
  \union {<<"refused-but-must-fill", r>> : x \in IF ~e.ok /\ r.must THEN {1} ELSE {}}
  \union {<<"fill-size", BaseMoved(s, e), r>> : x \in
     IF e.ok /\ r.may /\ ~(BaseI(s, e)[1] <= r.b[2] /\ BaseI(s, e)[2] >= r.b[1]) THEN {1} ELSE {}}
BadP06(s, e) ==
  IF ~e.ok \/ ~StartOnGrid(s) THEN {} ELSE
  LET spent == s.q - e.q
      Q == RoundU(Cfg.tol, e.o.am, Cfg.qu)
      A == RoundU(Cfg.tol, e.o.am, Cfg.bu)
      \* In decimal single precision a cost may round up by one quote unit.
      k == IF Exact THEN 0 ELSE Cfg.qu + Slack(s, e) + Err(1, Q[2])
      B == BaseI(s, e)
      cap == VolumeCap(Cfg, e.o, e.t)
  IN {<<"overspent", spent, Q>> : x \in IF e.o.kd = "quote" /\ e.o.sd = "BUY" /\ spent > Q[2] + k THEN {1} ELSE {}}
     \union {<<"overreceived", -spent, Q>> : x \in IF e.o.kd = "quote" /\ e.o.sd = "SELL" /\ -spent > Q[2] + k THEN {1} ELSE {}}
     \union {<<"more-than-ordered", B, A>> : x \in IF e.o.kd = "base" /\ B[1] > A[2] THEN {1} ELSE {}}
     \union {<<"less-than-ordered", B, A, cap>> : x \in IF e.o.kd = "base" /\ B[2] < A[1] /\ B[2] < cap[1] THEN {1} ELSE {}}
     \union {<<"volume-cap", B, cap>> : x \in IF B[1] > cap[2] THEN {1} ELSE {}}
BadP07(s, e) ==
  {<<"off-grid", e.b, e.q, e.f>> : x \in IF e.ok /\ ~(Grid(e) /\ e.g) THEN {1} ELSE {}}

\* Getter observations: GetFee and the price getters.
BadFee(e) == LET want == Fee(Cfg, e.fs, Point(e.qa)) IN
  {<<"GetFee", e.r, want>> : x \in IF In(e.r, Spread(want, IF Exact THEN 0 ELSE Err(1, e.r))) THEN {} ELSE {1}}
BadPrices(e) ==
  LET w == <<MarketPrice(Cfg, "BUY", e.t), MarketPrice(Cfg, "SELL", e.t),
             StopPrice(Cfg, "BUY", e.t, e.p), StopPrice(Cfg, "SELL", e.t, e.p)>>
  IN {<<"price-getter", i, e.r[i], w[i]>> : i \in {j \in 1 .. 4 : AbsI(e.r[j] - w[j][1]) > Err(Cfg.tol, w[j][1])}}

\* One order started within the case's working range can at most lead here;
\* anything beyond is not explained by any order (and would overflow below).
InRange(e) == AbsI(e.b) <= Case.xb /\ AbsI(e.q) <= Case.xq /\ AbsI(e.f) <= Case.xq

Bad ==
  IF l > Len(Case.ev) THEN {} ELSE
  IF Ev.k = "crash" THEN {<<"crash", Ev.why>>} ELSE
  IF Ev.k = "fee" THEN IF PROP = "P03" THEN BadFee(Ev) ELSE {} ELSE
  IF Ev.k = "prices" THEN IF PROP = "P04" THEN BadPrices(Ev) ELSE {} ELSE
  IF Ev.k # "order" THEN {} ELSE
  IF Ev.nan \/ ~InRange(Ev) THEN {<<"out-of-range", Ev.b, Ev.q, Ev.f>>} ELSE
  CASE PROP = "P01" -> BadP01(acct, Ev)
    [] PROP = "P02" -> BadP02(acct, Ev)
    [] PROP = "P03" -> BadP03(acct, Ev)
    [] PROP = "P04" -> BadP04(acct, Ev)
    [] PROP = "P05" -> BadP05(acct, Ev)
    [] PROP = "P06" -> BadP06(acct, Ev)
    [] PROP = "P07" -> BadP07(acct, Ev)

Accepted == Bad = {}

Init == c \in 1 .. Len(Cases) /\ l = 1 /\ acct = Cases[c].init
Order == Ev.k = "order" /\ acct' = Obs(Ev)
Set == Ev.k = "set" /\ acct' = Obs(Ev)          \* the driver put the account into a state
Getter == Ev.k \in {"fee", "prices", "crash"} /\ UNCHANGED acct
Next == l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c /\ (Order \/ Set \/ Getter)
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, before |-> acct, bad |-> Bad]
=============================================================================
