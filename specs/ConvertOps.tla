----------------------------- MODULE ConvertOps -----------------------------
(* What importing a history means (P23).  A line (or stored record) is      *)
(*   [ok |-> it can be parsed, t |-> time, pos |-> the time is positive,    *)
(*    n |-> number of signals, ...].  lo and hi are <<>> (unbounded) or     *)
(* <<time>>.  Valid(x): the values of x may be stored.                      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Early(x, lo) == lo # <<>> /\ x.t < lo[1]
Late(x, hi) == hi # <<>> /\ x.t >= hi[1]

(* ---- the tool: one line after another ---- *)
\* prev: time of the last kept record or <<>>; sig: its number of signals
Verdict(x, prev, sig, lo, hi, kind, Valid(_)) ==
  IF ~x.ok THEN "error"
  ELSE IF Early(x, lo) THEN "skip"
  ELSE IF Late(x, hi) THEN "end"
  ELSE IF ~x.pos THEN "error"
  ELSE IF prev # <<>> /\ (IF kind = "side" THEN x.t <= prev[1] ELSE x.t < prev[1]) THEN "error"
  ELSE IF ~Valid(x) THEN "error"
  ELSE IF kind = "side" /\ prev # <<>> /\ x.n # sig THEN "error"
  ELSE "keep"

(* ---- the definition over the whole input ---- *)
\* the input ends before the first readable line at or after the end of the range
EndOf(ls, lo, hi) ==
  LET late == {i \in DOMAIN ls : ls[i].ok /\ ~Early(ls[i], lo) /\ Late(ls[i], hi)} IN
  IF late = {} THEN Len(ls) + 1 ELSE CHOOSE i \in late : \A j \in late : i <= j
Used(ls, lo, hi) == {i \in 1 .. EndOf(ls, lo, hi) - 1 : ~ls[i].ok \/ ~Early(ls[i], lo)}
Refused(ls, lo, hi, kind, Valid(_)) ==
  LET u == Used(ls, lo, hi) IN
  \/ \E i \in 1 .. EndOf(ls, lo, hi) - 1 : ~ls[i].ok
  \/ \E i \in u : ~ls[i].pos \/ ~Valid(ls[i])
  \/ \E i, j \in u : i < j /\ (IF kind = "side" THEN ls[i].t >= ls[j].t \/ ls[i].n # ls[j].n ELSE ls[i].t > ls[j].t)
Imported(ls, lo, hi) ==
  LET u == Used(ls, lo, hi) IN
  [k \in 1 .. Cardinality(u) |-> ls[CHOOSE i \in u : Cardinality({j \in u : j < i}) = k - 1]]

(* ---- the choice of the input ---- *)
Inputs == {"price_csv", "price_proto", "ohlc_csv", "ohlc_proto", "side_csv"}
Selects(s) == Cardinality(s) = 1
KindOf(i) == CASE i \in {"price_csv", "price_proto"} -> "price" [] i \in {"ohlc_csv", "ohlc_proto"} -> "ohlc" [] i = "side_csv" -> "side"
Outputs == {"price", "ohlc", "side"}
\* outputs produced from a history of a kind
Produces(kind) == CASE kind = "price" -> {"price", "ohlc"} [] kind = "ohlc" -> {"ohlc"} [] kind = "side" -> {"side"}
=============================================================================
