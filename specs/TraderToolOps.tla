--------------------------- MODULE TraderToolOps ---------------------------
(* What a run of the trader tool means (P25).  A record is                  *)
(*   [t |-> time, pos |-> the time is positive, ok |-> its values are valid, *)
(*    n |-> number of signals].  lo and hi are <<>> (unbounded) or <<time>>. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

InRange(t, lo, hi) == (lo = <<>> \/ t >= lo[1]) /\ (hi = <<>> \/ t < hi[1])
Selected(rs, lo, hi) == SelectSeq(rs, LAMBDA r : InRange(r.t, lo, hi))

(* ---- the definition over the whole selection ---- *)
OhlcRefused(rs) ==
  \/ \E i \in DOMAIN rs : ~rs[i].pos \/ ~rs[i].ok
  \/ \E i, j \in DOMAIN rs : i < j /\ rs[i].t >= rs[j].t
SideRefused(rs) ==
  \/ \E i \in DOMAIN rs : ~rs[i].pos
  \/ \E i, j \in DOMAIN rs : i < j /\ (rs[i].t >= rs[j].t \/ rs[i].n # rs[j].n)

(* ---- the tool: one record after another ---- *)
OhlcVerdict(x, prev) == IF ~x.pos \/ ~x.ok \/ (prev # <<>> /\ x.t <= prev[1].t) THEN "error" ELSE "keep"
SideVerdict(x, prev) == IF ~x.pos \/ (prev # <<>> /\ (x.t <= prev[1].t \/ x.n # prev[1].n)) THEN "error" ELSE "keep"

(* ---- batch mode ---- *)
Least(a, b) == IF a < b THEN a ELSE b
\* printed: sequence of indices into the results; Better(i, j): i scores more than j
Ranked(printed, n, top, Better(_, _)) ==
  LET p == {printed[k] : k \in DOMAIN printed} IN
  /\ Len(printed) = Least(top, n) /\ p \subseteq 1 .. n /\ Cardinality(p) = Len(printed)
  /\ \A k \in DOMAIN printed : k > 1 => ~Better(printed[k], printed[k - 1])
  /\ \A i \in p, j \in (1 .. n) \ p : ~Better(j, i)
=============================================================================
