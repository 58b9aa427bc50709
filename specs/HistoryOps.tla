----------------------------- MODULE HistoryOps -----------------------------
(* What resampling, gap search and range selection of histories mean.       *)
(* Times are relative integers; off is the distance of the time origin      *)
(* from the last interval boundary before it.  Prices are integers whose    *)
(* order is the order of the prices.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y

(* ---- resampling: record <<time, price, volume>>, tick <<time, o, h, l, c>> ---- *)
Bucket(t, rate, off) == (t + off) \div rate
Members(recs, rate, off, k) == {i \in DOMAIN recs : Bucket(recs[i][1], rate, off) = k}
FirstBucket(recs, rate, off) == Bucket(recs[1][1], rate, off)
LastBucket(recs, rate, off) == Bucket(recs[Len(recs)][1], rate, off)
NTicks(recs, rate, off) == IF recs = <<>> THEN 0 ELSE LastBucket(recs, rate, off) - FirstBucket(recs, rate, off) + 1
\* the last record before interval k
Before(recs, rate, off, k) == MaxS({i \in DOMAIN recs : Bucket(recs[i][1], rate, off) < k})
TickOf(recs, rate, off, k) ==
  LET m == Members(recs, rate, off, k)
      at == k * rate - off
  IN IF m = {} THEN LET x == recs[Before(recs, rate, off, k)][2] IN <<at, x, x, x, x>>
     ELSE LET ps == {recs[i][2] : i \in m} IN <<at, recs[MinS(m)][2], MaxS(ps), MinS(ps), recs[MaxS(m)][2]>>

(* ---- gaps ---- *)
Longer(a, b) == LET d == (a[2] - a[1]) - (b[2] - b[1]) IN d > 0 \/ (d = 0 /\ a[1] < b[1])
Earlier(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Candidates(ts, s, e) ==     \* s, e: bound or <<>> if there is none
  IF ts = <<>> THEN <<>>
  ELSE [i \in 1 .. Len(s) |-> <<s[i], ts[1]>>]
       \o [i \in 1 .. Len(ts) - 1 |-> <<ts[i], ts[i + 1]>>]
       \o [i \in 1 .. Len(e) |-> <<ts[Len(ts)], e[i]>>]
TopGaps(ts, s, e, n) ==
  LET sorted == SortSeq(Candidates(ts, s, e), Longer)
  IN SortSeq(SubSeq(sorted, 1, IF n < Len(sorted) THEN n ELSE Len(sorted)), Earlier)

(* ---- range selection: s, e as above ---- *)
InRange(t, s, e) == (s = <<>> \/ t >= s[1]) /\ (e = <<>> \/ t < e[1])
Selected(ts, s, e) == {i \in DOMAIN ts : InRange(ts[i], s, e)}

(* ---- context of the last outliers ---- *)
LastN(idx, n) == IF n = 0 \/ Len(idx) <= n THEN idx ELSE SubSeq(idx, Len(idx) - n + 1, Len(idx))
ContextOf(idx, size, left, right, n) ==   \* set of <<position (from 0), is an outlier>>
  LET o == LastN(idx, n)
      os == {o[i] : i \in DOMAIN o}
      near == {k \in 0 .. size - 1 : \E j \in k - right .. k + left : j \in os}
  IN {<<k, k \in os>> : k \in near}
=============================================================================
