------------------------------ MODULE Exchange ------------------------------
(* Design model of the simulated exchange (eval/eval.cc, ExecuteTrader):   *)
(* ticks arrive one by one; pending orders are tried in emission order;    *)
(* then, unless the tick is a gap (zero volume), the trader is updated and *)
(* replaces the pending orders by a new batch.  Filling is abstract: an    *)
(* order of level p fills on a tick of level >= p while there are funds.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NTicks, Levels, MaxBatch, Funds, MaxSide

VARIABLES now,      \* index of the current tick
          tick,     \* [h, traded]
          ph,       \* "idle", "exec"
          pend,     \* active orders: sequence of [em, n, p]
          cur,      \* next order to try
          funds,
          done,     \* executed: set of [em, n, at, seq]
          upd,      \* indices of the ticks the trader was updated on
          side,     \* number of side records at or before the current tick
          seen,     \* record shown to the trader at its last update
          nrow      \* log rows: sequence of [k, at]
vars == <<now, tick, ph, pend, cur, funds, done, upd, side, seen, nrow>>

Batches == UNION {[1 .. k -> Levels] : k \in 0 .. MaxBatch}
Init == /\ now = 0 /\ tick = [h |-> 1, traded |-> FALSE] /\ ph = "idle" /\ pend = <<>> /\ cur = 1
        /\ funds = Funds /\ done = {} /\ upd = <<>> /\ side = 0 /\ seen = 0 /\ nrow = <<>>
Open == /\ ph = "idle" /\ now < NTicks
        /\ \E h \in Levels, traded \in BOOLEAN, k \in 0 .. MaxSide :
             tick' = [h |-> h, traded |-> traded] /\ side' = side + k
        /\ now' = now + 1 /\ ph' = "exec" /\ cur' = 1
        /\ nrow' = Append(nrow, [k |-> "row", at |-> now + 1])
        /\ UNCHANGED <<pend, funds, done, upd, seen>>
Fills(o) == tick.h >= o.p /\ funds > 0
Try == /\ ph = "exec" /\ cur <= Len(pend)
       /\ IF Fills(pend[cur])
          THEN /\ done' = done \union {[em |-> pend[cur].em, n |-> pend[cur].n, at |-> now, seq |-> Cardinality(done)]}
               /\ pend' = SubSeq(pend, 1, cur - 1) \o SubSeq(pend, cur + 1, Len(pend))
               /\ funds' = funds - 1 /\ UNCHANGED cur
               /\ nrow' = Append(nrow, [k |-> "exec", at |-> now])
          ELSE cur' = cur + 1 /\ UNCHANGED <<done, pend, funds, nrow>>
       /\ UNCHANGED <<now, tick, ph, upd, side, seen>>
Gap == /\ ph = "exec" /\ cur > Len(pend) /\ ~tick.traded
       /\ ph' = "idle"
       /\ UNCHANGED <<now, tick, pend, cur, funds, done, upd, side, seen, nrow>>
Update == /\ ph = "exec" /\ cur > Len(pend) /\ tick.traded
          /\ \E b \in Batches : pend' = [n \in 1 .. Len(b) |-> [em |-> now, n |-> n, p |-> b[n]]]
          /\ upd' = Append(upd, now) /\ seen' = side /\ ph' = "idle"
          /\ UNCHANGED <<now, tick, cur, funds, done, side, nrow>>
Next == Open \/ Try \/ Gap \/ Update
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* P08 *) OneBatch == \A i, j \in DOMAIN pend : pend[i].em = pend[j].em
(* P08 *) AtMostOnce == \A x, y \in done : x.em = y.em /\ x.n = y.n => x = y
(* P08 *) OnlyLater == \A x \in done : x.em < x.at
(* P08 *) EmissionOrder == \A x, y \in done : x.em = y.em /\ x.at = y.at /\ x.n < y.n => x.seq < y.seq
(* P08 *) NotStale == \A x \in done : \A k \in DOMAIN upd : ~(x.em < upd[k] /\ upd[k] < x.at)
(* P08: what could still be filled on a tick was filled or is waiting for its turn *)
Tried == ph = "idle" => \A j \in DOMAIN pend : pend[j].em < now => ~Fills(pend[j])
(* P09 *) UpdatedOnce == \A k \in DOMAIN upd : \A m \in DOMAIN upd : k < m => upd[k] < upd[m]
(* P11 *) LatestSide == (ph = "idle" /\ tick.traded /\ now > 0) => seen = side
(* P13 *) RowPerTick == Cardinality({i \in DOMAIN nrow : nrow[i].k = "row"}) = now
                     /\ Cardinality({i \in DOMAIN nrow : nrow[i].k = "exec"}) = Cardinality(done)
                     /\ \A i \in DOMAIN nrow : i > 1 => nrow[i - 1].at <= nrow[i].at
(* the simulation gets through all ticks *)
Finishes == <>(now = NTicks /\ ph = "idle")
=============================================================================
