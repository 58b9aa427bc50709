-------------------------------- MODULE Stop --------------------------------
(***************************************************************************)
(* The stop trader between updates.  Prices are multiples of 4, margins    *)
(* are quarters, and one short step may move the stop by at most Rate.     *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Prices, M, MM, Rate     \* M, MM: margins in quarters
VARIABLES mode, stop, price, short, before
vars == <<mode, stop, price, short, before>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
First(m, p) == (p \div 4) * (IF m = "LONG" THEN 4 - M ELSE 4 + M)
Thr(m, p) == (p \div 4) * (IF m = "LONG" THEN 4 - MM ELSE 4 + MM)
Init == mode = "NONE" /\ stop = 0 /\ price = 0 /\ short = FALSE /\ before = 0
Update(m, p, s) ==
  /\ mode' = m /\ price' = p /\ short' = (s /\ m = mode) /\ before' = stop
  /\ stop' = IF ~(s /\ m = mode) THEN First(m, p)
             ELSE IF m = "LONG" THEN (IF stop <= Thr(m, p) THEN Max(stop, Min(Thr(m, p), stop + Rate)) ELSE stop)
             ELSE (IF stop >= Thr(m, p) THEN Min(stop, Max(Thr(m, p), stop - Rate)) ELSE stop)
Next == \E m \in {"LONG", "CASH"}, p \in Prices, s \in BOOLEAN : Update(m, p, s)
Steady == short' /\ mode' = mode /\ price' = price
\* the market stands still: same side, same price, short steps only
Spec == Init /\ [][Next]_vars /\ WF_vars(mode # "NONE" /\ Update(mode, price, TRUE))

Ratchet == [][short' => IF mode = "LONG" THEN stop' >= stop ELSE stop' <= stop]_vars
RateLimit == [][short' => stop' - stop <= Rate /\ stop - stop' <= Rate]_vars
MarginKept == [][short' /\ stop' # stop => IF mode = "LONG" THEN stop' <= Thr(mode', price') ELSE stop' >= Thr(mode', price')]_vars
ResetToMargin == [][~short' => stop' = First(mode', price')]_vars
Protective == mode = "NONE" \/ short \/ (IF mode = "LONG" THEN stop < price ELSE stop > price)
\* if the market stands still for good, the stop ends at the margin or beyond it
Settles == (<>[][Steady]_vars) => <>[](mode # "NONE" => IF mode = "LONG" THEN stop >= Thr(mode, price) ELSE stop <= Thr(mode, price))
=============================================================================
