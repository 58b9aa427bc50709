----------------------------- MODULE EvaluateMC -----------------------------
EXTENDS Evaluate
D == 86400
G(d0, s, e, n) == [d0 |-> d0, s |-> s, e |-> e, n |-> n, s0 |-> FALSE, e0 |-> FALSE]
\* d0 = 2020-01-01 (leap year): starts on the 1st, on Jan 31, on Feb 29 and mid-month.
Starts == {0, 30 * D, 59 * D + 3600, 45 * D + 7}
Lengths == {0, 1, 31 * D, 60 * D, 91 * D, 121 * D, 366 * D}
MCConfigs == {G(18262, s, s + x + dx, n) : s \in Starts, x \in Lengths, dx \in {0, 1}, n \in {0, 1, 2, 3, 12}}
Tk(S) == [i \in DOMAIN S |-> <<S[i], 1>>]
MCHistories ==
  {<<>>, Tk(<<0>>), Tk(<<30 * D, 31 * D, 60 * D>>), Tk(<<59 * D, 60 * D - 1, 60 * D, 121 * D>>),
   Tk([i \in 1 .. 13 |-> (i - 1) * 30 * D]), Tk(<<0, 91 * D - 1, 91 * D, 365 * D>>)}
=============================================================================
