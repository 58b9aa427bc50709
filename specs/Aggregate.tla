------------------------------- MODULE Aggregate -------------------------------
(***************************************************************************)
(* Aggregation of a tick stream into the last n periods.  A period is      *)
(*   [b |-> period number, o, h, l, c, v |-> volume, k |-> ticks in it]    *)
(* and an incoming tick is a period with k = 1.  Steps is the operational  *)
(* specification: the notifications of one update, in order, each with the *)
(* window it leaves behind.  The declarative meaning is in AggregateMC.    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
CONSTANTS Mx(_, _), Mn(_, _), Plus(_, _), Nothing

Flat(b, p) == [b |-> b, o |-> p.c, h |-> p.c, l |-> p.c, c |-> p.c, v |-> Nothing, k |-> 0]
Merge(p, x) == [p EXCEPT !.h = Mx(@, x.h), !.l = Mn(@, x.l), !.c = x.c, !.v = Plus(@, x.v), !.k = @ + 1]
Push(win, p, n) ==
  IF Len(win) < n THEN [kind |-> "added", old |-> <<>>, new |-> p, win |-> Append(win, p)]
  ELSE [kind |-> "removed", old |-> <<win[1]>>, new |-> p, win |-> Append(Tail(win), p)]
Change(win, x) ==
  LET p == win[Len(win)]
      q == Merge(p, x)
  IN [kind |-> "updated", old |-> <<p>>, new |-> q, win |-> [win EXCEPT ![Len(win)] = q]]
RECURSIVE StepsFrom(_, _, _, _)
StepsFrom(win, x, n, acc) ==
  IF win = <<>> THEN Append(acc, Push(win, x, n))
  ELSE LET p == win[Len(win)] IN
       IF p.b = x.b THEN Append(acc, Change(win, x))
       ELSE IF p.b + 1 = x.b THEN Append(acc, Push(win, x, n))
       ELSE LET s == Push(win, Flat(p.b + 1, p), n) IN StepsFrom(s.win, x, n, Append(acc, s))
Steps(win, x, n) == StepsFrom(win, x, n, <<>>)
=============================================================================
