----------------------------- MODULE AggregateMC -----------------------------
(***************************************************************************)
(* Every small tick stream: the incremental window equals the definition,  *)
(* and the notifications tell the whole story (a listener that only        *)
(* applies them rebuilds the window).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANTS MaxTicks, Period, Steps0, Shapes, Windows, Offsets
MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b
Sum(a, b) == a + b
A == INSTANCE Aggregate WITH Mx <- MaxN, Mn <- MinN, Plus <- Sum, Nothing <- 0
SmallShapes == {<<3, 4, 2, 3, 1>>, <<2, 5, 1, 4, 2>>, <<6, 7, 5, 5, 1>>}
DeepShapes == SmallShapes \cup {<<4, 4, 4, 4, 3>>}
VARIABLES n, off, stream, win, heard, events
vars == <<n, off, stream, win, heard, events>>
\* a stream is a sequence of <<time, open, high, low, close, volume>>
Bucket(t) == (t + off) \div Period
AsTick(s) == [b |-> Bucket(s[1]), o |-> s[2], h |-> s[3], l |-> s[4], c |-> s[5], v |-> s[6], k |-> 1]
Init == n \in Windows /\ off \in Offsets /\ stream = <<>> /\ win = <<>> /\ heard = <<>> /\ events = <<>>

\* a listener that knows nothing but the notifications
Hear(h, s) ==
  IF s.kind = "updated" THEN [h EXCEPT ![Len(h)] = s.new]
  ELSE IF s.kind = "added" THEN Append(h, s.new) ELSE Append(Tail(h), s.new)
RECURSIVE HearAll(_, _, _)
HearAll(h, ss, i) == IF i > Len(ss) THEN h ELSE HearAll(Hear(h, ss[i]), ss, i + 1)

Next == /\ Len(stream) < MaxTicks
        /\ \E dt \in Steps0, sh \in Shapes :
             LET t == (IF stream = <<>> THEN 0 ELSE stream[Len(stream)][1]) + dt
                 s == <<t>> \o sh
                 ss == A!Steps(win, AsTick(s), n)
             IN /\ stream' = Append(stream, s) /\ win' = ss[Len(ss)].win
                /\ heard' = HearAll(heard, ss, 1) /\ events' = ss
        /\ UNCHANGED <<n, off>>
Spec == Init /\ [][Next]_vars

\* the definition: the ticks of period b, or a flat period at the last close before
In(b) == {i \in DOMAIN stream : Bucket(stream[i][1]) = b}
Before(b) == {i \in DOMAIN stream : Bucket(stream[i][1]) < b}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
RECURSIVE Vol(_)
Vol(S) == IF S = {} THEN 0 ELSE LET i == First(S) IN stream[i][6] + Vol(S \ {i})
PeriodAt(b) ==
  LET S == In(b) IN
  IF S = {} THEN LET c == stream[Last(Before(b))][5] IN [b |-> b, o |-> c, h |-> c, l |-> c, c |-> c, v |-> 0, k |-> 0]
  ELSE [b |-> b, o |-> stream[First(S)][2], c |-> stream[Last(S)][5],
        h |-> CHOOSE x \in {stream[i][3] : i \in S} : \A i \in S : stream[i][3] <= x,
        l |-> CHOOSE x \in {stream[i][4] : i \in S} : \A i \in S : stream[i][4] >= x,
        v |-> Vol(S), k |-> Cardinality(S)]
Definition ==
  IF stream = <<>> THEN <<>>
  ELSE LET first == Bucket(stream[1][1])
           last == Bucket(stream[Len(stream)][1])
           m == MinN(n, last - first + 1)
       IN [i \in 1 .. m |-> PeriodAt(last - m + i)]
WindowRight == win = Definition
ListenerRight == heard = win
OldIsTrue == \A i \in DOMAIN events :
  /\ (i < Len(events) => events[i].new.k = 0 /\ events[i].kind # "updated")
  /\ (events[i].kind = "removed" => Len(events[i].win) = n /\ events[i].old[1].b = events[i].new.b - n)
  /\ (events[i].kind = "added" => Len(events[i].win) <= n /\ events[i].old = <<>>)
  /\ (events[i].kind = "updated" => events[i].old[1].b = events[i].new.b /\ events[i].new.k = events[i].old[1].k + 1)
  /\ \A j \in 1 .. Len(events[i].win) - 1 : events[i].win[j].b + 1 = events[i].win[j + 1].b
Sane == \A i \in DOMAIN win : win[i].l <= win[i].o /\ win[i].l <= win[i].c /\ win[i].o <= win[i].h /\ win[i].c <= win[i].h
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/ JsonSerialize(IOEnv.WORLD_FILE,
  [period |-> Period, steps |-> Steps0, shapes |-> Shapes, windows |-> Windows, offsets |-> Offsets, len |-> MaxTicks])
=============================================================================
