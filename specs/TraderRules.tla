---------------------------- MODULE TraderRules ----------------------------
(* The decision rules of the two bundled traders, over exact numbers.       *)
EXTENDS Integers, Sequences, Dyadic
One == D(1)

(* ---- rebalancing: alpha, eps; balances b, q; closing price p ---- *)
Value(b, p, q) == DAdd(DMul(b, p), q)
Upper(alpha, eps) == DMul(alpha, DAdd(One, eps))
Lower(alpha, eps) == DMul(alpha, DSub(One, eps))
\* share b*p/V compared with x:  b*p ? x*V
Over(b, p, q, x) == DCmp(DMul(b, p), DMul(x, Value(b, p, q)))
\* amount a sold (bought) at price p brings the share to alpha:  (b -+ a)*p = alpha*V
Restores(b, p, q, alpha, a) == <<DMul(DSub(b, a), p), DMul(alpha, Value(b, p, q))>>
\* at price x the share is u:  x*b*(1-u) = u*q
EdgeSides(b, q, u, x) == <<DMul(DMul(x, b), DSub(One, u)), DMul(u, q)>>

(* ---- stop: margin m, move margin mm ---- *)
IsLong(b, p, q) == DLe(q, DMul(b, p))
Initial(long, m, p) == DMul(IF long THEN DSub(One, m) ELSE DAdd(One, m), p)
Threshold(long, mm, p) == DMul(IF long THEN DSub(One, mm) ELSE DAdd(One, mm), p)
\* grown = stop times the largest factor allowed for the elapsed time
Moved(long, stop, thr, grown) ==
  IF long THEN (IF DLe(stop, thr) THEN DMax(stop, DMin(thr, grown)) ELSE stop)
  ELSE (IF DLe(thr, stop) THEN DMin(stop, DMax(thr, grown)) ELSE stop)
MaxGap == 3600
SecondsPerDay == 86400
=============================================================================
