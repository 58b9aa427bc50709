------------------------------- MODULE WindowMC -------------------------------
(***************************************************************************)
(* Incremental sliding windows (a monotone queue of candidates for the     *)
(* minimum, running sums for mean and variance) under additions and        *)
(* corrections of the latest value, against the last W values.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
CONSTANTS Values, MaxOps, MaxWindow
Three == {-1, 0, 2}
Four == {-3, -1, 0, 2}
VARIABLES w, hist, ops, cur, cand, sums, queue
vars == <<w, hist, ops, cur, cand, sums, queue>>
\* w = 0: unlimited (mean and variance only)
Init == w \in 0 .. MaxWindow /\ hist = <<>> /\ ops = <<>> /\ cur = 0 /\ cand = <<>> /\ sums = <<0, 0>> /\ queue = <<>>
RECURSIVE DropWorse(_, _)
DropWorse(q, v) == IF q # <<>> /\ q[Len(q)][1] >= v THEN DropWorse(SubSeq(q, 1, Len(q) - 1), v) ELSE q
RECURSIVE DropOld(_, _)
DropOld(q, i) == IF q # <<>> /\ q[1][2] < i THEN DropOld(Tail(q), i) ELSE q
N == Len(hist)
Add(v) ==
  /\ hist' = Append(hist, v) /\ cur' = v /\ ops' = Append(ops, <<"add", v>>)
  /\ IF N = 0 THEN UNCHANGED <<cand, sums, queue>>
     ELSE /\ cand' = IF w = 0 THEN cand ELSE DropOld(Append(DropWorse(cand, cur), <<cur, N>>), N + 2 - w)
          /\ LET q == Append(queue, cur)
                 s == <<sums[1] + cur, sums[2] + cur * cur>>
             IN IF w > 0 /\ Len(q) >= w
                THEN queue' = Tail(q) /\ sums' = <<s[1] - q[1], s[2] - q[1] * q[1]>>
                ELSE queue' = q /\ sums' = s
Upd(v) == N > 0 /\ hist' = [hist EXCEPT ![N] = v] /\ cur' = v /\ ops' = Append(ops, <<"upd", v>>) /\ UNCHANGED <<cand, sums, queue>>
Next == Len(ops) < MaxOps /\ UNCHANGED w /\ \E v \in Values : Add(v) \/ Upd(v)
Spec == Init /\ [][Next]_vars

Size == IF w = 0 \/ N < w THEN N ELSE w
Win == {N - Size + i : i \in 1 .. Size}
RECURSIVE SumOver(_, _)
SumOver(S, p) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN (IF p = 1 THEN hist[i] ELSE hist[i] * hist[i]) + SumOver(S \ {i}, p)
Min == IF cand = <<>> \/ cur < cand[1][1] THEN cur ELSE cand[1][1]
MinRight == N > 0 /\ w > 0 => Min \in {hist[i] : i \in Win} /\ \A i \in Win : Min <= hist[i]
CandSorted == \A i \in 1 .. Len(cand) - 1 : cand[i][1] < cand[i + 1][1] /\ cand[i][2] < cand[i + 1][2]
SumsRight == N > 0 => cur + sums[1] = SumOver(Win, 1) /\ cur * cur + sums[2] = SumOver(Win, 2)
\* n^2 times the variance, a sum of squares: never negative
VarianceRight == N > 0 => Size * (cur * cur + sums[2]) - (cur + sums[1]) * (cur + sums[1]) >= 0
QueueRight == N > 0 => Len(queue) = Size - 1
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE, [values |-> Values, len |-> MaxOps, windows |-> MaxWindow])
=============================================================================
