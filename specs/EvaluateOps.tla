---------------------------- MODULE EvaluateOps ----------------------------
(* Evaluation windows and aggregates.  Times are seconds relative to         *)
(* midnight of day d0; a configuration is [s, e, n, d0, s0, e0] (start, end, *)
(* months, base day, start / end bound absent).                              *)
EXTENDS Civil

AddMonthsSec(d0, t, k) == (AddMonthsDay(d0 + t \div 86400, k) - d0) * 86400 + (t % 86400)
WStart(g, k) == AddMonthsSec(g.d0, g.s, k)
WEnd(g, k) == IF g.n > 0 THEN AddMonthsSec(g.d0, WStart(g, k), g.n) ELSE g.e
MaxMonths == 420       \* bound on the number of windows considered

Inside(g, T, s, e) == SelectSeq([i \in DOMAIN T |-> i], LAMBDA i : (g.s0 \/ T[i][1] >= s) /\ (g.e0 \/ T[i][1] < e))
\* All windows (P14), then those with ticks.
Windows(g) ==
  IF g.n <= 0 THEN <<[s |-> g.s, e |-> g.e]>>
  ELSE [k \in 1 .. Len(SelectSeq([j \in 1 .. MaxMonths |-> j - 1], LAMBDA j : WEnd(g, j) <= g.e)) |->
          [s |-> WStart(g, k - 1), e |-> WEnd(g, k - 1)]]
Fed(g, T) == LET W == Windows(g) IN
  SelectSeq([k \in DOMAIN W |-> [s |-> W[k].s, e |-> W[k].e, in |-> Inside(g, T, W[k].s, W[k].e)]], LAMBDA w : w.in # <<>>)

=============================================================================
