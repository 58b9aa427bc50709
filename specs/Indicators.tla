------------------------------ MODULE Indicators ------------------------------
(***************************************************************************)
(* Indicators as incremental functions of the notifications of Aggregate,  *)
(* over exact numbers.  `kind` is the notification, `win` the window of    *)
(* periods it leaves.  IndicatorMC checks them against their definitions   *)
(* over whole streams; IndicatorsTrace checks the code against them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Dyadic
A == INSTANCE Aggregate WITH Mx <- DMax, Mn <- DMin, Plus <- DAdd, Nothing <- Zero
One == D(1)
\* about 70 significant bits, and no fewer than 84 binary places
Keep(x) == IF x.s = 0 THEN x ELSE DTrunc(x, MinI(-7, x.e + Len(x.d) - 7))

\* exponential moving average: prev is the value at the end of the previous period
EmaNone == [num |-> 0, prev |-> Zero, cur |-> Zero]
Blend(num, prev, x, w) == IF num = 1 THEN x ELSE Keep(DAdd(DMul(w, x), DMul(DSub(One, w), prev)))
EmaStep(e, kind, x, w) ==
  IF kind = "updated" THEN [e EXCEPT !.cur = Blend(e.num, e.prev, x, w)]
  ELSE [num |-> e.num + 1, prev |-> e.cur, cur |-> Blend(e.num + 1, e.cur, x, w)]
Weight(smoothing, len) == DDivN(smoothing, 1 + len, -7)

\* a series over periods of which the last `n` are kept
Put(s, kind, x, n) ==
  IF kind = "updated" THEN [s EXCEPT ![Len(s)] = x]
  ELSE IF Len(s) < n THEN Append(s, x) ELSE Append(Tail(s), x)

\* the move of the last period: from the close before (or its own open)
From(win) == IF Len(win) = 1 THEN win[1].o ELSE win[Len(win) - 1].c
Move(win) == DSub(win[Len(win)].c, From(win))
Up(win) == DMax(Zero, Move(win))
Down(win) == DMax(Zero, DNeg(Move(win)))
MoveWeight(num, n) == DDivN(One, MinI(num, n), -7)

RECURSIVE LowTo(_, _), HighTo(_, _), CloseTo(_, _)
LowTo(win, i) == IF i = 1 THEN win[1].l ELSE DMin(LowTo(win, i - 1), win[i].l)
HighTo(win, i) == IF i = 1 THEN win[1].h ELSE DMax(HighTo(win, i - 1), win[i].h)
Lo(win) == LowTo(win, Len(win))
Hi(win) == HighTo(win, Len(win))
CloseTo(win, i) == IF i = 0 THEN Zero ELSE DAdd(CloseTo(win, i - 1), win[i].c)
SumClose(win) == CloseTo(win, Len(win))

\* portfolio value before and after the current period
Worth(b, q, p) == DAdd(DMul(b, p), q)
PvStep(pv, kind, p, b, q) ==
  IF pv = <<>> THEN <<Worth(b, q, p.o), Worth(b, q, p.c)>>
  ELSE IF kind = "updated" THEN <<pv[1], Worth(b, q, p.c)>> ELSE <<pv[2], Worth(b, q, p.c)>>
=============================================================================
