---------------------------- MODULE LedgerOps ----------------------------
(* Order execution semantics of an exchange account (base/account.{h,cc}). *)
(* All amounts are integers: base amounts in "base micros", quote amounts  *)
(* in "quote micros", prices in quote micros per base micro.  A derived    *)
(* quantity is an interval <<lo, hi>> of integers.  With tol = 0 (exact    *)
(* binary arithmetic) intervals are points unless a unit is 0 and a        *)
(* quotient is not whole; with tol = 1 (decimal units in single precision) *)
(* an interval is widened by the float rounding error.                     *)
EXTENDS Integers, Sequences

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
FloorDiv(a, b) == a \div b
CeilDiv(a, b) == -((-a) \div b)
Point(a) == <<a, a>>
Infinite == 1073741823

\* Float error allowance (in micros) for a quantity of n micros.
Err(tol, n) == IF tol = 0 THEN 0 ELSE AbsI(n) \div 524288 + 1

\* Rational interval num/den -> integers, rounded to unit u (0: no unit).
WidenQ(tol, I, d) == <<I[1] - d * Err(tol, I[1] \div d), I[2] + d * Err(tol, I[2] \div d)>>
CeilU(tol, I, d, u) ==
  LET W == WidenQ(tol, I, d) IN
  IF u = 0 THEN <<FloorDiv(W[1], d), CeilDiv(W[2], d)>>
  ELSE <<u * CeilDiv(W[1], d * u), u * CeilDiv(W[2], d * u)>>
FloorU(tol, I, d, u) ==
  LET W == WidenQ(tol, I, d) IN
  IF u = 0 THEN <<FloorDiv(W[1], d), CeilDiv(W[2], d)>>
  ELSE <<u * FloorDiv(W[1], d * u), u * FloorDiv(W[2], d * u)>>
\* Round to nearest, ties away from zero (amounts are non-negative).
RoundU(tol, a, u) ==
  IF u = 0 THEN Point(a)
  ELSE LET e == Err(tol, a) IN
       <<u * FloorDiv(2 * (a - e) + u, 2 * u), u * FloorDiv(2 * (a + e) + u, 2 * u)>>

In(n, I) == I[1] <= n /\ n <= I[2]

(* Fee schedule [r, d, fix, min]: max(min, fix + q * r / d), rounded up.   *)
Fee(cfg, fs, Q) ==
  LET d == fs[2]
      raw == <<Max2(fs[4] * d, fs[3] * d + Q[1] * fs[1]), Max2(fs[4] * d, fs[3] * d + Q[2] * fs[1])>>
  IN CeilU(cfg.tol, raw, d, cfg.qu)

(* Ticks are <<open, high, low, close, volume>>; prices are rationals <<num, den>>. *)
Open(t) == t[1]
High(t) == t[2]
Low(t) == t[3]
Close(t) == t[4]
Vol(t) == t[5]
Interpolate(cfg, near, far) == <<cfg.ln * near + (cfg.ld - cfg.ln) * far, cfg.ld>>
MarketPrice(cfg, sd, t) == Interpolate(cfg, Open(t), IF sd = "BUY" THEN High(t) ELSE Low(t))
StopPrice(cfg, sd, t, p) ==
  IF sd = "BUY" THEN Interpolate(cfg, Max2(p, Open(t)), High(t))
  ELSE Interpolate(cfg, Min2(p, Open(t)), Low(t))
ExecPrice(cfg, o, t) ==
  CASE o.ty = "MARKET" -> MarketPrice(cfg, o.sd, t)
    [] o.ty = "STOP" -> StopPrice(cfg, o.sd, t, o.pr)
    [] o.ty = "LIMIT" -> <<o.pr, 1>>
Triggered(o, t) ==
  CASE o.ty = "MARKET" -> TRUE
    [] o.ty = "STOP" -> IF o.sd = "BUY" THEN High(t) >= o.pr ELSE Low(t) <= o.pr
    [] o.ty = "LIMIT" -> IF o.sd = "BUY" THEN Low(t) <= o.pr ELSE High(t) >= o.pr
\* Maximum base amount (interval) for a limit order.
VolumeCap(cfg, o, t) ==
  IF o.ty = "LIMIT" /\ cfg.rn > 0 THEN FloorU(cfg.tol, Point(Vol(t) * cfg.rn), cfg.rd, cfg.bu)
  ELSE Point(Infinite)
MinI(I, J) == <<Min2(I[1], J[1]), Min2(I[2], J[2])>>

(* Comparison of intervals: possible / certain. *)
MayLe(tol, I, J) == I[1] - Err(tol, I[1]) <= J[2]
MustLe(tol, I, J) == I[2] + Err(tol, I[2]) <= J[1]
MayLt(tol, I, J) == I[1] - Err(tol, I[1]) < J[2]
MustLt(tol, I, J) == I[2] + Err(tol, I[2]) < J[1]

Rejected == [may |-> FALSE, must |-> FALSE, b |-> <<0, 0>>]
\* Positive and at least one unit.
AmountMay(cfg, A) == A[2] > 0 /\ A[2] >= cfg.bu
AmountMust(cfg, A) == A[1] > 0 /\ A[1] >= cfg.bu

\* Price P rational <<n, d>>; A is the (rounded) base amount.
BuyCost(cfg, A, P) == CeilU(cfg.tol, <<A[1] * P[1], A[2] * P[1]>>, P[2], cfg.qu)
SellProceeds(cfg, A, P) == FloorU(cfg.tol, <<A[1] * P[1], A[2] * P[1]>>, P[2], cfg.qu)

BuyBase(cfg, fs, acct, A, P) ==
  LET cost == BuyCost(cfg, A, P)
      fee == Fee(cfg, fs, cost)
      tot == <<cost[1] + fee[1], cost[2] + fee[2]>>
  IN [may |-> AmountMay(cfg, A) /\ MayLe(cfg.tol, tot, Point(acct.q)),
      must |-> AmountMust(cfg, A) /\ MustLe(cfg.tol, tot, Point(acct.q)),
      b |-> A]
SellBase(cfg, fs, acct, A, P) ==
  LET got == SellProceeds(cfg, A, P)
      fee == Fee(cfg, fs, got)
      net == <<got[1] - fee[2], got[2] - fee[1]>>
  IN [may |-> AmountMay(cfg, A) /\ MayLe(cfg.tol, A, Point(acct.b)) /\ net[2] + Err(cfg.tol, got[2]) >= cfg.qu,
      must |-> AmountMust(cfg, A) /\ MustLe(cfg.tol, A, Point(acct.b)) /\ net[1] - Err(cfg.tol, got[1]) >= cfg.qu,
      b |-> A]
\* Base amount bought / sold for N quote micros at price P, at most cap.
BaseFor(cfg, N, P, cap) ==
  LET raw == FloorU(cfg.tol, <<N[1] * P[2], N[2] * P[2]>>, P[1], cfg.bu)
  IN IF cap[1] >= Infinite THEN raw
     ELSE MinI(raw, FloorU(cfg.tol, cap, 1, cfg.bu))     \* in single precision, rounding down twice may lose a unit
BuyAtQuote(cfg, fs, acct, amount, P, cap) ==
  LET Q == RoundU(cfg.tol, amount, cfg.qu)
      fee == Fee(cfg, fs, Q)
      may0 == Q[2] >= cfg.qu /\ MayLe(cfg.tol, Q, Point(acct.q)) /\ MayLt(cfg.tol, fee, Q)
      must0 == Q[1] >= cfg.qu /\ MustLe(cfg.tol, Q, Point(acct.q)) /\ MustLt(cfg.tol, fee, Q)
      N == <<Max2(0, Q[1] - fee[2]), Max2(0, Q[2] - fee[1])>>
      A == BaseFor(cfg, N, P, cap)
      r == BuyBase(cfg, fs, acct, A, P)
  IN IF ~may0 THEN Rejected
     ELSE [may |-> AmountMay(cfg, A) /\ r.may, must |-> must0 /\ AmountMust(cfg, A) /\ r.must, b |-> A]
SellAtQuote(cfg, fs, acct, amount, P, cap) ==
  LET Q == RoundU(cfg.tol, amount, cfg.qu)
      fee == Fee(cfg, fs, Q)
      N == <<Q[1] + fee[1], Q[2] + fee[2]>>
      A == BaseFor(cfg, N, P, cap)
      r == SellBase(cfg, fs, acct, A, P)
  IN IF Q[2] < cfg.qu THEN Rejected
     ELSE [may |-> AmountMay(cfg, A) /\ r.may,
           must |-> Q[1] >= cfg.qu /\ AmountMust(cfg, A) /\ r.must, b |-> A]

(* Outcome of order o = [ty, sd, kd, am, pr] on tick t with account acct.  *)
Outcome(cfg, acct, o, t) ==
  LET fs == cfg.fees[o.ty]
      P == ExecPrice(cfg, o, t)
      cap == VolumeCap(cfg, o, t)
      lim == MinI(Point(o.am), cap)
      \* The volume cap is on the grid, so rounding the minimum is monotone.
      A == <<RoundU(cfg.tol, lim[1], cfg.bu)[1], RoundU(cfg.tol, lim[2], cfg.bu)[2]>>
  IN IF ~Triggered(o, t) THEN Rejected
     ELSE IF o.kd = "base"
       THEN IF o.sd = "BUY" THEN BuyBase(cfg, fs, acct, A, P) ELSE SellBase(cfg, fs, acct, A, P)
       ELSE IF o.sd = "BUY" THEN BuyAtQuote(cfg, fs, acct, o.am, P, cap)
            ELSE SellAtQuote(cfg, fs, acct, o.am, P, cap)

(* Exact successor account (tol = 0): used by the design model and by      *)
(* specifications that predict whole runs.                                 *)
Apply(cfg, acct, o, t, ba) ==
  LET P == ExecPrice(cfg, o, t)
      fs == cfg.fees[o.ty]
  IN IF o.sd = "BUY"
     THEN LET cost == BuyCost(cfg, Point(ba), P)[1]
              fee == Fee(cfg, fs, Point(cost))[1]
          IN [b |-> acct.b + ba, q |-> acct.q - cost - fee, f |-> acct.f + fee]
     ELSE LET got == SellProceeds(cfg, Point(ba), P)[1]
              fee == Fee(cfg, fs, Point(got))[1]
          IN [b |-> acct.b - ba, q |-> acct.q + got - fee, f |-> acct.f + fee]
=============================================================================
