------------------------------ MODULE Outliers ------------------------------
(***************************************************************************)
(* Outlier removal on a coarse price grid: a record jumps if its level is  *)
(* at least 2 away from the last kept one; a jump is confirmed by a record *)
(* at least 2 levels on the same side among the next Ahead valid ones.     *)
(* Level 0 stands for an invalid record.  TLC checks what the rule means   *)
(* for a user: clean data stays, isolated spikes go, lasting shifts stay.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Levels, MaxLen, Ahead, Need
VARIABLES h, i, kept
vars == <<h, i, kept>>
Valid(k) == h[k] # 0
Jump(p, ref) == p - ref >= 2 \/ ref - p >= 2
SameSide(x, p, ref) == IF p > ref THEN x - ref >= 2 ELSE ref - x >= 2
NextValid(k) == {j \in k + 1 .. Len(h) : Valid(j) /\ Cardinality({m \in k + 1 .. j : Valid(m)}) <= Ahead}
Persistent(k, ref) == Cardinality({j \in NextValid(k) : SameSide(h[j], h[k], ref)}) >= Need
Keep(k) == Valid(k) /\ (kept = <<>> \/ LET ref == h[kept[Len(kept)]] IN ~Jump(h[k], ref) \/ Persistent(k, ref))
Init == h \in UNION {[1 .. n -> Levels] : n \in 0 .. MaxLen} /\ i = 1 /\ kept = <<>>
Next == /\ i <= Len(h) /\ i' = i + 1 /\ UNCHANGED h
        /\ kept' = IF Keep(i) THEN Append(kept, i) ELSE kept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == i > Len(h)
Kept == {kept[k] : k \in DOMAIN kept}
Ordered == \A k \in 1 .. Len(kept) - 1 : kept[k] < kept[k + 1]
OnlyValid == \A k \in Kept : Valid(k)
FirstValidKept == Done => \A k \in DOMAIN h : (Valid(k) /\ \A j \in 1 .. k - 1 : ~Valid(j)) => k \in Kept
CleanStays == Done /\ (\A k \in DOMAIN h : Valid(k)) /\ (\A k \in 1 .. Len(h) - 1 : ~Jump(h[k + 1], h[k])) => Kept = DOMAIN h
\* a lone spike (the next Ahead valid records are back at the old level) goes
SpikeGoes == Done => \A k \in 2 .. Len(h) :
  (k - 1 \in Kept /\ Valid(k) /\ Jump(h[k], h[k - 1]) /\ \A j \in NextValid(k) : h[j] = h[k - 1]) => k \notin Kept
\* a lasting shift (Need further records at the new level directly after it) stays
ShiftStays == Done => \A k \in 2 .. Len(h) :
  (k - 1 \in Kept /\ Valid(k) /\ k + Need <= Len(h) /\ \A j \in 1 .. Need : h[k + j] = h[k]) => k \in Kept
\* two kept neighbours that differ by a jump were confirmed
JumpsConfirmed == \A k \in 2 .. Len(kept) :
  Jump(h[kept[k]], h[kept[k - 1]]) => Persistent(kept[k], h[kept[k - 1]])
Terminates == <>Done
=============================================================================
