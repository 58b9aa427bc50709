---------------------------- MODULE TradersTrace ----------------------------
(* Recorded updates of the bundled traders against TraderRules (P17, P18).  *)
EXTENDS TraderRules, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l, mode, stop, ts
vars == <<c, l, mode, stop, ts>>
Case == Cases[c]
Ev == Case.ev[l]
If(b, x) == IF b THEN {x} ELSE {}
B == F(Ev.b)
Q == F(Ev.q)
P == F(Ev.p)
Bits24(x) == Len(x.d) <= 2
Small(x) == Len(x.d) <= 1
O == Ev.o

(* ---- common: the logged state ---- *)
\* a printed decimal of n[1] * 10^6 + n[2] thousandths is a correct rounding of a
Printed(n, a) == Near(DAdd(DMul(D(2 * n[1]), D(1000000)), D(2 * n[2])), DMul(D(2000), a), D(1), 0)
BadState ==
  If(~Ev.st.ok, <<"state text">>)
  \union If(Ev.st.ok /\ Ev.st.ts # Ev.t, <<"state time", Ev.st.ts, Ev.t>>)
  \union If(Ev.st.ok /\ ~(Printed(Ev.st.b, B) /\ Printed(Ev.st.q, Q) /\ Printed(Ev.st.c, P)), <<"state balances or close", Ev.st>>)
PlainBase(o) == o.hb /\ ~o.hq /\ Finite(o.ba)

(* ---- P17 ---- *)
Alpha == F(Case.cfg[1])
Eps == F(Case.cfg[2])
U == Upper(Alpha, Eps)
L == Lower(Alpha, Eps)
V == Value(B, P, Q)
\* all float operations involved are exact, so the comparison is exact too
ExactRegime == /\ Small(Alpha) /\ Small(Eps) /\ Small(U) /\ Small(L) /\ Bits24(V) /\ Bits24(DMul(B, P))
               /\ Len(V.d) = 1 /\ V.d[1] \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
Border(x) == ~ExactRegime /\ Near(DMul(B, P), DMul(x, V), DMul(x, V), 20)
MayAbove == Over(B, P, Q, U) > 0 \/ Border(U)
MayBelow == Over(B, P, Q, L) < 0 \/ Border(L)
MayInside == ~(Over(B, P, Q, U) > 0 /\ ~Border(U)) /\ ~(Over(B, P, Q, L) < 0 /\ ~Border(L))
Micro == F(<<8796093, -43>>)     \* 1.0e-6f
Both == DLt(Micro, B) /\ DLt(Micro, Q)
MarketOk(o, side) ==
  /\ o.ty = "MARKET" /\ o.sd = side /\ PlainBase(o) /\ ~o.hp
  /\ LET a == F(o.ba)
         r == Restores(B, P, Q, Alpha, IF side = "SELL" THEN a ELSE DNeg(a))
     IN a.s = 1 /\ Near(r[1], r[2], V, 20)
\* x*p compared with the price of edge u: -1 surely below, 1 surely above, 0 too close to tell
Side(u, k, n) ==   \* position of the close times k/n
  LET s == EdgeSides(B, Q, u, P)
      x == DMul(D(k), s[1])
      y == DMul(D(n), s[2])
  IN IF Near(x, y, DAdd(x, y), 19) THEN 0 ELSE DCmp(x, y)
UnderOne == IF Near(U, One, One, 20) THEN {TRUE, FALSE} ELSE {DLt(U, One)}
\* may / must there be a limit sell (buy) order
SellMust == UnderOne = {TRUE} /\ Side(U, 1, 1) < 0 /\ Side(U, 100, 1) > 0
SellMay == TRUE \in UnderOne /\ Side(U, 1, 1) <= 0 /\ Side(U, 100, 1) >= 0
BuyMust == Side(L, 1, 1) > 0 /\ Side(L, 1, 100) < 0
BuyMay == Side(L, 1, 1) >= 0 /\ Side(L, 1, 100) <= 0
LimitOk(o, side, u, f) ==
  /\ o.ty = "LIMIT" /\ o.sd = side /\ PlainBase(o) /\ o.hp /\ Finite(o.pr)
  /\ F(o.ba).s = 1 /\ F(o.pr).s = 1
  /\ IF side = "SELL" THEN DLt(P, F(o.pr)) ELSE DLt(F(o.pr), P)
  /\ LET s == EdgeSides(B, Q, u, F(o.pr)) IN Near(s[1], s[2], DMul(F(o.pr), B), 20)
  /\ Near(DMul(F(o.ba), f), DMul(B, Eps), B, 21) /\ Close(DMul(F(o.ba), f), DMul(B, Eps), 13)
LimitsOk ==
  IF ~Both THEN O = <<>>
  ELSE LET sells == {i \in DOMAIN O : O[i].sd = "SELL"}
           buys == DOMAIN O \ sells
       IN /\ Cardinality(sells) <= 1 /\ Cardinality(buys) <= 1
          /\ (SellMust => sells # {}) /\ (sells # {} => SellMay)
          /\ (BuyMust => buys # {}) /\ (buys # {} => BuyMay)
          /\ \A i \in sells : LimitOk(O[i], "SELL", U, DAdd(One, Eps))
          /\ \A i \in buys : LimitOk(O[i], "BUY", L, DSub(One, Eps))
Where == IF MayAbove /\ ~MayInside THEN "above" ELSE IF MayBelow /\ ~MayInside THEN "below"
         ELSE IF MayAbove \/ MayBelow THEN "edge" ELSE "inside"
BadRebalance ==
  If(~(\/ MayAbove /\ Len(O) = 1 /\ MarketOk(O[1], "SELL")
       \/ MayBelow /\ Len(O) = 1 /\ MarketOk(O[1], "BUY")
       \/ MayInside /\ LimitsOk), <<"orders of the rebalancing trader", Where, O>>)
  \union If(~Ev.same, <<"the orders depend on the history">>)
  \union BadState

(* ---- P18 ---- *)
Margin == F(Case.cfg[1])
MoveMargin == F(Case.cfg[2])
Rate(long) == IF long THEN DAdd(One, F(Case.cfg[3])) ELSE DSub(One, F(Case.cfg[4]))
Wit(long) == F(IF long THEN Case.wit[1] ELSE Case.wit[2])    \* logarithm of Rate, verified here:
WitOk(long) == Close(DExp(Wit(long)), Rate(long), 26)
LongNow == O[1].sd = "SELL"
ModeBorder == ~Bits24(DMul(B, P)) /\ Close(DMul(B, P), Q, 21)
OneStop == /\ Len(O) = 1 /\ O[1].ty = "STOP" /\ O[1].hp /\ Finite(O[1].pr)
           /\ IF O[1].sd = "SELL" THEN O[1].hb /\ ~O[1].hq /\ O[1].ba = Ev.b
              ELSE O[1].hq /\ ~O[1].hb /\ O[1].qa = Ev.q
NewStop == F(O[1].pr)
Fresh == mode # (IF LongNow THEN "LONG" ELSE "CASH") \/ Ev.t - ts >= MaxGap
Thr == Threshold(LongNow, MoveMargin, P)
Grown == DMul(DExp(DTrunc(DDivN(DMul(Wit(LongNow), D(Ev.t - ts)), SecondsPerDay, -6), -6)), stop)
BadStop ==
  IF ~OneStop THEN {<<"not exactly one stop order over the whole balance", O>>}
  ELSE If(~ModeBorder /\ LongNow # IsLong(B, P, Q), <<"side of the stop order", O[1].sd>>)
       \union If(~WitOk(LongNow), <<"witness">>)
       \union (IF Fresh THEN If(~Close(NewStop, Initial(LongNow, Margin, P), 20), <<"stop price is not reset to the margin", O[1].pr>>)
               ELSE If(~Close(NewStop, Moved(LongNow, stop, Thr, Grown), 20), <<"stop price moved wrongly", O[1].pr>>)
                    \union If(IF LongNow THEN DLt(NewStop, stop) ELSE DLt(stop, NewStop), <<"stop price moved away from the market", O[1].pr>>)
                    \union If(NewStop # stop /\ ~Close(NewStop, Thr, 21) /\ (LongNow = DLt(Thr, NewStop)), <<"stop price moved across the margin", O[1].pr>>))
       \union BadState
       \union If(Ev.st.ok /\ ~(Ev.st.mode = (IF LongNow THEN "LONG" ELSE "CASH") /\ Printed(Ev.st.stop, NewStop)), <<"state side or stop price", Ev.st>>)

Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>}
       ELSE IF l = 0 \/ l > Len(Case.ev) THEN {}
       ELSE IF PROP = "P17" THEN BadRebalance ELSE BadStop
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0 /\ mode = "NONE" /\ stop = Zero /\ ts = 0
Next ==
  /\ Case.crash = "" /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
  /\ IF l = 0 THEN UNCHANGED <<mode, stop, ts>>
     ELSE /\ ts' = Ev.t
          /\ IF PROP = "P17" THEN UNCHANGED <<mode, stop>>
             ELSE mode' = (IF LongNow THEN "LONG" ELSE "CASH") /\ stop' = NewStop
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, update |-> IF l \in DOMAIN Case.ev THEN Ev ELSE <<>>, bad |-> Bad]
=============================================================================
