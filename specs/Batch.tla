-------------------------------- MODULE Batch --------------------------------
(* Design model of batch evaluation: every trader is evaluated by a task;    *)
(* tasks start (at most Pool at a time) and take their update steps in any   *)
(* interleaving; the caller collects the results in submission order.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Steps, Pools
VARIABLES pool, started, pos, acc, collected
vars == <<pool, started, pos, acc, collected>>
\* What one update does to a trader's private state; shared data is only read.
Update(w, s, a) == (a * 7 + w * 13 + s) % 101
RECURSIVE Solo(_, _)
Solo(w, s) == IF s = 0 THEN w ELSE Update(w, s, Solo(w, s - 1))
Init == /\ pool \in Pools /\ started = {} /\ pos = [w \in 1 .. N |-> 0] /\ acc = [w \in 1 .. N |-> w]
        /\ collected = <<>>
Running == {w \in started : pos[w] < Steps}
Start(w) == w \notin started /\ Cardinality(Running) < pool /\ started' = started \union {w}
            /\ UNCHANGED <<pool, pos, acc, collected>>
Step(w) == w \in Running /\ pos' = [pos EXCEPT ![w] = @ + 1] /\ acc' = [acc EXCEPT ![w] = Update(w, pos[w] + 1, @)]
           /\ UNCHANGED <<pool, started, collected>>
Collect == LET w == Len(collected) + 1 IN
           w <= N /\ w \in started /\ pos[w] = Steps /\ collected' = Append(collected, acc[w])
           /\ UNCHANGED <<pool, started, pos, acc>>
Next == Collect \/ \E w \in 1 .. N : Start(w) \/ Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* P16 *) SameAsAlone == \A i \in DOMAIN collected : collected[i] = Solo(i, Steps)
(* P16 *) AllReturned == <>(Len(collected) = N)
=============================================================================
