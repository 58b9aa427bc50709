----------------------------- MODULE IndicatorMC -----------------------------
(***************************************************************************)
(* Every small stream: the incremental indicators of Indicators equal      *)
(* their definitions over the whole stream, and their ranges hold.         *)
(***************************************************************************)
EXTENDS Indicators, FiniteSets, TLC
CONSTANTS MaxTicks, Gaps, Shapes, Balances, N
VARIABLES stream, win, w2, fast, slow, signal, up, down, ks, pv, rets
vars == <<stream, win, w2, fast, slow, signal, up, down, ks, pv, rets>>
Shapes3 == {<<4, 6, 2, 5>>, <<5, 5, 5, 5>>, <<6, 8, 1, 1>>}      \* open high low close
Shapes4 == Shapes3 \cup {<<2, 4, 2, 4>>}
Bal2 == {<<1, 0>>, <<0, 3>>}
Half == DBin(1, -1)
Quarter == DBin(1, -2)
Tick(b, s) == [b |-> b, o |-> D(s[1]), h |-> D(s[2]), l |-> D(s[3]), c |-> D(s[4]), v |-> One, k |-> 1]
K(w) == <<DSub(w[Len(w)].c, Lo(w)), DSub(Hi(w), Lo(w))>>    \* numerator and span
Init == /\ stream = <<>> /\ win = <<>> /\ w2 = <<>> /\ fast = EmaNone /\ slow = EmaNone /\ signal = EmaNone
        /\ up = EmaNone /\ down = EmaNone /\ ks = <<>> /\ pv = <<>> /\ rets = <<>>
\* one notification
Rec(f, sl, sg, u, d, k, p, r) == [fast |-> f, slow |-> sl, signal |-> sg, up |-> u, down |-> d, ks |-> k, pv |-> p, rets |-> r]
One1(r, s, s2, bal) ==
  LET x == s.win[Len(s.win)]
      f == EmaStep(r.fast, s.kind, x.c, Half)
      sl == EmaStep(r.slow, s.kind, x.c, Quarter)
      wu == MoveWeight(IF s.kind = "updated" THEN r.up.num ELSE r.up.num + 1, 2)
      p == PvStep(r.pv, s.kind, x, D(bal[1]), D(bal[2]))
  IN Rec(f, sl, EmaStep(r.signal, s.kind, DSub(f.cur, sl.cur), Half), EmaStep(r.up, s.kind, Up(s2.win), wu), EmaStep(r.down, s.kind, Down(s2.win), wu),
         Put(r.ks, s.kind, K(s.win), 3), p, Put(r.rets, s.kind, p, 100))
RECURSIVE All(_, _, _, _, _)
All(r, ss, s2, bal, i) == IF i > Len(ss) THEN r ELSE All(One1(r, ss[i], s2[i], bal), ss, s2, bal, i + 1)
Next ==
  /\ Len(stream) < MaxTicks
  /\ \E g \in (IF stream = <<>> THEN {0} ELSE Gaps), sh \in Shapes, bal \in Balances :
       LET b == (IF stream = <<>> THEN 0 ELSE stream[Len(stream)].b) + g
           x == Tick(b, sh)
           ss == A!Steps(win, x, N)
           s2 == A!Steps(w2, x, 2)
           r == All(Rec(fast, slow, signal, up, down, ks, pv, rets), ss, s2, bal, 1)
       IN /\ stream' = Append(stream, [b |-> b, s |-> sh, bal |-> bal])
          /\ win' = ss[Len(ss)].win /\ w2' = s2[Len(s2)].win
          /\ fast' = r.fast /\ slow' = r.slow /\ signal' = r.signal /\ up' = r.up /\ down' = r.down
          /\ ks' = r.ks /\ pv' = r.pv /\ rets' = r.rets
Spec == Init /\ [][Next]_vars

(* ---- definitions over the stream ---- *)
Some == stream # <<>>
NP == stream[Len(stream)].b + 1                    \* periods 0 .. NP - 1
In(b) == {i \in DOMAIN stream : stream[i].b = b}
Upto(b) == {i \in DOMAIN stream : stream[i].b <= b}
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i
CloseAt(b) == stream[MaxOf(Upto(b))].s[4]
\* closed form of the average: weights w (1-w)^(m-i), the first period without the factor w
RECURSIVE Pow(_, _), Closed(_, _, _)
Pow(x, k) == IF k = 0 THEN One ELSE DMul(x, Pow(x, k - 1))
Closed(vals, w, i) ==     \* sum of the contributions of vals[1..i], m = Len(vals)
  IF i = 0 THEN Zero
  ELSE DAdd(Closed(vals, w, i - 1), DMul(DMul(IF i = 1 THEN One ELSE w, Pow(DSub(One, w), Len(vals) - i)), vals[i]))
ClosedEma(vals, w) == Closed(vals, w, Len(vals))
Closes == [i \in 1 .. NP |-> D(CloseAt(i - 1))]
Series == [i \in 1 .. NP |-> LET p == SubSeq(Closes, 1, i) IN DSub(ClosedEma(p, Half), ClosedEma(p, Quarter))]
EmaRight == Some => /\ fast.cur = ClosedEma(Closes, Half) /\ slow.cur = ClosedEma(Closes, Quarter)
                    /\ signal.cur = ClosedEma(Series, Half) /\ fast.num = NP /\ signal.num = NP
EmaBounded == Some => \E i, j \in 1 .. NP : DLe(Closes[i], fast.cur) /\ DLe(fast.cur, Closes[j])
\* moves: the first period's own, then close to close
M(i) == IF i = 1 THEN CloseAt(0) - stream[1].s[1] ELSE CloseAt(i - 1) - CloseAt(i - 2)
Ups == [i \in 1 .. NP |-> D(IF M(i) > 0 THEN M(i) ELSE 0)]
Downs == [i \in 1 .. NP |-> D(IF M(i) < 0 THEN -M(i) ELSE 0)]
\* weights 1, 1/2, 1/2, ...: the mean of the first two, then smoothed
Smoothed(v) == IF Len(v) = 1 THEN v[1] ELSE ClosedEma(v, Half)
RsiRight == Some => up.cur = Smoothed(Ups) /\ down.cur = Smoothed(Downs) /\ up.num = NP
RsiRange == DLe(Zero, up.cur) /\ DLe(Zero, down.cur)
RsiMean == Some /\ NP = 2 => DAdd(up.cur, up.cur) = DSum(Ups)
\* net move: the two averages differ by the smoothed signed move
RsiNet == Some => DSub(up.cur, down.cur) = Smoothed([i \in 1 .. NP |-> D(M(i))])
\* range of the last N periods, from the ticks themselves
WinB(b) == {x \in 0 .. b : x > b - N}
LowAt(b) == CHOOSE x \in 0 .. 20 :
  LET S == {stream[i].s[3] : i \in UNION {In(y) : y \in WinB(b)}} \cup {CloseAt(y) : y \in WinB(b)} IN x \in S /\ \A z \in S : x <= z
HighAt(b) == CHOOSE x \in 0 .. 20 :
  LET S == {stream[i].s[2] : i \in UNION {In(y) : y \in WinB(b)}} \cup {CloseAt(y) : y \in WinB(b)} IN x \in S /\ \A z \in S : x >= z
KAt(b) == <<D(CloseAt(b) - LowAt(b)), D(HighAt(b) - LowAt(b))>>
KRight == Some => ks = [i \in 1 .. MinI(3, NP) |-> KAt(NP - MinI(3, NP) + i - 1)]
KRange == \A i \in DOMAIN ks : DLe(Zero, ks[i][1]) /\ DLe(ks[i][1], ks[i][2])
SmaRight == Some => SumClose(win) = DSum([i \in 1 .. MinI(N, NP) |-> D(CloseAt(NP - MinI(N, NP) + i - 1))])
\* values at the end of each period; skipped periods are valued when the next tick arrives
NextOf(b) == stream[IF In(b) # {} THEN MaxOf(In(b)) ELSE CHOOSE i \in DOMAIN stream : stream[i].b > b /\ \A j \in DOMAIN stream : stream[j].b > b => i <= j]
BalAtFill(b) == IF In(b) # {} THEN stream[MaxOf(In(b))].bal ELSE NextOf(b).bal
EndWorth(b) == Worth(D(BalAtFill(b)[1]), D(BalAtFill(b)[2]), D(CloseAt(b)))
\* the opening value uses the balances of the very first tick
StartWorth == Worth(D(stream[1].bal[1]), D(stream[1].bal[2]), D(stream[1].s[1]))
RetsRight == Some => rets = [i \in 1 .. NP |-> <<IF i = 1 THEN StartWorth ELSE EndWorth(i - 2), EndWorth(i - 1)>>]
Chained == \A i \in 2 .. Len(rets) : rets[i][1] = rets[i - 1][2]
=============================================================================
