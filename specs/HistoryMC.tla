------------------------------ MODULE HistoryMC ------------------------------
(***************************************************************************)
(* The streaming algorithms (one pass, bounded heap, binary search) as     *)
(* transition systems, run on every small history; at the end each agrees  *)
(* with the definition in HistoryOps.                                      *)
(***************************************************************************)
EXTENDS HistoryOps, Json, IOUtils
CONSTANTS MaxT, MaxLen, Rate, Prices
VARIABLES kind, recs, par, i, out, lo, hi
vars == <<kind, recs, par, i, out, lo, hi>>
Sorted(s) == \A k \in 1 .. Len(s) - 1 : s[k][1] <= s[k + 1][1]
Histories == UNION {{s \in [1 .. n -> (0 .. MaxT) \X Prices \X {1}] : Sorted(s)} : n \in 0 .. MaxLen}
Flat == UNION {{s \in [1 .. n -> (0 .. MaxT) \X {1} \X {1}] : Sorted(s)} : n \in 0 .. MaxLen}
Bounds == {<<>>} \cup {<<t>> : t \in -1 .. MaxT + 1}
Ts == [k \in DOMAIN recs |-> recs[k][1]]

Init ==
  /\ i = 1 /\ out = <<>> /\ lo = 0 /\ hi = 0
  /\ \/ kind = "resample" /\ recs \in Histories /\ par \in {[off |-> o] : o \in 0 .. Rate - 1}
     \/ kind = "gaps" /\ recs \in Flat /\ par \in {[s |-> s, e |-> e, n |-> n] : s \in Bounds, e \in Bounds, n \in 0 .. 3}
     \/ kind = "subset" /\ recs \in Flat /\ par \in {[s |-> s, e |-> e] : s \in Bounds, e \in Bounds}

\* one pass over the records, filling skipped intervals
ResampleStep ==
  /\ kind = "resample" /\ i <= Len(recs) /\ UNCHANGED <<kind, recs, par, lo, hi>>
  /\ LET at == Bucket(recs[i][1], Rate, par.off) * Rate - par.off
         p == recs[i][2]
         last == out[Len(out)]
     IN IF out # <<>> /\ last[1] + Rate < at
        THEN out' = Append(out, <<last[1] + Rate, last[5], last[5], last[5], last[5]>>) /\ i' = i
        ELSE /\ i' = i + 1
             /\ out' = IF out = <<>> \/ last[1] < at THEN Append(out, <<at, p, p, p, p>>)
                       ELSE [out EXCEPT ![Len(out)] = <<at, last[2], IF p > last[3] THEN p ELSE last[3], IF p < last[4] THEN p ELSE last[4], p>>]
ResampleRight == kind = "resample" /\ i > Len(recs) =>
  /\ Len(out) = NTicks(recs, Rate, par.off)
  /\ \A k \in DOMAIN out : out[k] = TickOf(recs, Rate, par.off, FirstBucket(recs, Rate, par.off) + k - 1)

\* keep the n best candidates seen so far
Cand == Candidates(Ts, par.s, par.e)
GapStep ==
  /\ kind = "gaps" /\ i <= Len(Cand) /\ i' = i + 1 /\ UNCHANGED <<kind, recs, par, lo, hi>>
  /\ LET q == SortSeq(Append(out, Cand[i]), Longer)
     IN out' = IF Len(q) > par.n THEN SubSeq(q, 1, par.n) ELSE q
GapsRight == kind = "gaps" /\ i > Len(Cand) => SortSeq(out, Earlier) = TopGaps(Ts, par.s, par.e, par.n)
GapsAreLongest == kind = "gaps" => LET g == TopGaps(Ts, par.s, par.e, par.n) IN
  /\ Len(g) = (IF par.n < Len(Cand) THEN par.n ELSE Len(Cand))
  /\ \A k \in 1 .. Len(g) - 1 : ~Earlier(g[k + 1], g[k])
  /\ Cardinality({x \in DOMAIN Cand : \A y \in DOMAIN g : g[y][2] - g[y][1] < Cand[x][2] - Cand[x][1]}) = 0 \/ g = <<>>

\* two binary searches: i = 1 looks for the first selected, i = 2 for the end
Key == IF i = 1 THEN par.s ELSE par.e
Open(w) == IF w = 1 THEN <<0, IF par.s = <<>> THEN 0 ELSE Len(recs)>> ELSE <<IF out = <<>> THEN 0 ELSE out[1], Len(recs)>>
SubsetStep ==
  /\ kind = "subset" /\ UNCHANGED <<kind, recs, par>>
  /\ \/ i = 1 /\ lo = 0 /\ hi = 0 /\ out = <<>> /\ out' = <<-1>> /\ lo' = 0 /\ hi' = (IF par.s = <<>> THEN 0 ELSE Len(recs)) /\ i' = 1
     \/ i \in {1, 2} /\ Len(out) = i /\ out[i] = -1 /\ lo < hi /\ i' = i /\ out' = out
        /\ LET mid == (lo + hi) \div 2
           IN IF recs[mid + 1][1] < Key[1] THEN lo' = mid + 1 /\ hi' = hi ELSE hi' = mid /\ lo' = lo
     \/ i = 1 /\ Len(out) = 1 /\ lo = hi /\ out' = <<lo, -1>> /\ i' = 2
        /\ IF par.e = <<>> THEN lo' = Len(recs) /\ hi' = Len(recs) ELSE lo' = lo /\ hi' = Len(recs)
     \/ i = 2 /\ Len(out) = 2 /\ out[2] = -1 /\ lo = hi /\ out' = <<out[1], lo>> /\ i' = 3 /\ UNCHANGED <<lo, hi>>
SubsetRight == kind = "subset" /\ i = 3 =>
  /\ out[1] <= out[2]
  /\ {k \in DOMAIN recs : out[1] < k /\ k <= out[2]} = Selected(Ts, par.s, par.e)

Next == ResampleStep \/ GapStep \/ SubsetStep
Spec == Init /\ [][Next]_vars
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, [maxt |-> MaxT, maxlen |-> MaxLen, rate |-> Rate, prices |-> Prices])
=============================================================================
