---------------------------- MODULE RebalanceMC ----------------------------
(***************************************************************************)
(* A rebalancing trader on a market without fees: after an update either   *)
(* nothing trades, or its orders execute; the price then moves anywhere.   *)
(* Shows that the rule steers the share into the band from any portfolio.  *)
(* Units: alpha = a/8, eps = e/8; the market order executes at the close,  *)
(* a limit order at its own price (stated through its defining equations). *)
(***************************************************************************)
EXTENDS TraderRules, TLC
CONSTANTS Balances, Prices
VARIABLES a, e, b, q, p
vars == <<a, e, b, q, p>>
Alpha == DBin(a, -3)
Eps == DBin(e, -3)
Bd == D(b)
Qd == D(q)
Pd == D(p)
U == Upper(Alpha, Eps)
L == Lower(Alpha, Eps)
Init == a \in 1 .. 7 /\ e \in 1 .. 7 /\ b \in Balances /\ q \in Balances /\ p \in Prices /\ b + q > 0
Next == b' \in Balances /\ q' \in Balances /\ p' \in Prices /\ b' + q' > 0 /\ UNCHANGED <<a, e>>
Spec == Init /\ [][FALSE]_vars   \* every portfolio is an initial state
\* the market amounts of the code, as numerators over p
SellN == DSub(DMul(DSub(One, Alpha), Value(Bd, Pd, Qd)), Qd)      \* a*p
\* executing it at the close restores alpha, never sells / spends more than there is, and is positive
MarketSellRestores == Over(Bd, Pd, Qd, U) > 0 =>
  /\ DEq(DSub(DMul(Bd, Pd), SellN), DMul(Alpha, Value(Bd, Pd, Qd)))
  /\ DLt(Zero, SellN) /\ DLe(SellN, DMul(Bd, Pd))
MarketBuyRestores == Over(Bd, Pd, Qd, L) < 0 =>
  /\ DEq(DSub(DMul(Bd, Pd), SellN), DMul(Alpha, Value(Bd, Pd, Qd)))
  /\ DLt(SellN, Zero) /\ DLe(DNeg(SellN), Qd)
\* the edge price x = u*q/((1-u)*b): inside the band it lies on the right side of the close
Inside == Over(Bd, Pd, Qd, U) <= 0 /\ Over(Bd, Pd, Qd, L) >= 0 /\ b > 0 /\ q > 0
EdgeOnRightSide == Inside =>
  /\ DLt(U, One) => LET s == EdgeSides(Bd, Qd, U, Pd) IN DLe(s[1], s[2])   \* p <= upper edge
  /\ LET s == EdgeSides(Bd, Qd, L, Pd) IN DLe(s[2], s[1])                   \* lower edge <= p
\* at the edge price x*b = u*q/(1-u); selling b*eps/(1+eps) there restores alpha:
\*   b*(1/(1+eps))*x = alpha*(b*x + q)   <=>   u*q/(1-u) = alpha*(1+eps)*(u*q/(1-u) + q)
LimitSellRestores == DLt(U, One) =>
  DEq(DMul(U, Qd), DMul(DMul(Alpha, DAdd(One, Eps)), DAdd(DMul(U, Qd), DMul(DSub(One, U), Qd))))
LimitBuyRestores ==
  DEq(DMul(L, Qd), DMul(DMul(Alpha, DSub(One, Eps)), DAdd(DMul(L, Qd), DMul(DSub(One, L), Qd))))
=============================================================================
