---------------------------- MODULE ExchangeTrace ----------------------------
(* Conformance of recorded simulations with Exchange.  A case has a number  *)
(* of runs; each run is a sequence of ticks with recorded events:           *)
(*   t     the simulation reaches tick i.  can[j] / aft[j]: would the real  *)
(*         account fill order j of the live batch now, and its state after  *)
(*   row   log row of a tick with the account                               *)
(*   exec  log row of an executed order with the account right after it     *)
(*   upd   trader update (what it was given, what it emitted)               *)
(*   st    trader state row                                                 *)
(* Accounts are triples of float bit patterns (base, quote, fee), so that   *)
(* equality is bit-exact.  r = 0 is a pseudo-run: comparisons across runs   *)
(* and side input look-ups.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP

VARIABLES c, r, l, tick, acct, pend, cur, can, aft, updd, rowd, std, upds, nex
vars == <<c, r, l, tick, acct, pend, cur, can, aft, updd, rowd, std, upds, nex>>

Case == Cases[c]
R == Case.runs[r]
T == R.t
Ev == R.ev[l]
NT == Len(T)
AbsI(a) == IF a < 0 THEN -a ELSE a
If(b, x) == IF b THEN {x} ELSE {}
Ts(t) == t[1]
Volume(t) == t[6]
CloseP(t) == t[5]

(* ---- side input (P11) ---- *)
Latest(S, ts) == Cardinality({i \in DOMAIN S : S[i].t <= ts})     \* S is increasing
WantSig(i) == LET k == Latest(R.s, Ts(T[i])) IN
  IF ~R.hasside \/ k = 0 THEN <<>> ELSE R.s[k].x
WantAge(i) == Ts(T[i]) - R.s[Latest(R.s, Ts(T[i]))].t
SignalsOk(e) ==
  LET w == WantSig(tick)
      none == ~R.hasside \/ Latest(R.s, Ts(T[tick])) = 0
  IN IF none THEN e.sig = <<>>
     ELSE /\ Len(e.sig) = Len(w) + 1
          /\ \A j \in DOMAIN w : e.sig[j] = w[j]
          /\ AbsI(e.raw[Len(w) + 1] - WantAge(tick)) <= WantAge(tick) \div 8388608

(* ---- orders (P08) ---- *)
Match(e) == {j \in cur .. Len(pend) : R.ids[pend[j].em][pend[j].n] = e.od}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
FillableSkipped(from, to) == {j \in from .. to : pend[j].n \in DOMAIN can /\ can[pend[j].n]}

(* ---- leaving a tick ---- *)
LeaveTick ==
  IF tick = 0 THEN {} ELSE
  CASE PROP = "P08" -> {<<"active order was not executed though it fills", tick, pend[j].n>> : j \in FillableSkipped(cur, Len(pend))}
    [] PROP = "P09" -> If(Volume(T[tick]) # 0 /\ ~updd, <<"no trader update on a traded tick", tick>>)
    [] PROP = "P13" -> If(~rowd, <<"tick without log row", tick>>) \union If(updd /\ ~std, <<"update without trader log row", tick>>)
    [] OTHER -> {}

BadRow(e) ==
  IF PROP # "P13" THEN {} ELSE
  If(e.i # tick, <<"row of another tick", e.i, tick>>)
  \union If(rowd, <<"two rows for one tick", tick>>)
  \union If(updd, <<"row after the update", tick>>)
  \union If(~e.same, <<"tick in the log differs from the input">>)
  \union If(e.a # acct, <<"account in the tick row", e.n, acct>>)
BadExec(e) ==
  CASE PROP = "P08" ->
         IF e.i # tick THEN {<<"execution on another tick", e.i, tick>>}
         ELSE IF Match(e) = {} THEN {<<"executed order is not active here (stale, repeated, out of order or same tick)", tick, e.o>>}
         ELSE {<<"earlier active order was skipped though it fills", tick, pend[j].n>> : j \in FillableSkipped(cur, MinS(Match(e)) - 1)}
    [] PROP = "P13" ->
         If(e.i # tick \/ ~e.same, <<"execution row of another tick", e.i, tick>>)
         \union If(~rowd, <<"execution row before the tick row">>)
         \union If(updd, <<"execution row after the update">>)
         \union (IF Match(e) = {} THEN {<<"logged order is not the executed one", e.o>>}
                 ELSE If(pend[MinS(Match(e))].n \in DOMAIN aft /\ aft[pend[MinS(Match(e))].n] # e.a,
                         <<"account in the execution row is not the one right after it", e.n>>))
    [] OTHER -> {}
BadUpd(e) ==
  CASE PROP = "P08" -> {<<"active order was not executed though it fills", tick, pend[j].n>> : j \in FillableSkipped(cur, Len(pend))}
    [] PROP = "P09" ->
         If(e.i # tick, <<"update with another tick", e.i, tick>>)
         \union If(updd, <<"two updates on one tick", tick>>)
         \union If(tick > 0 /\ Volume(T[tick]) = 0, <<"update on a zero-volume tick", tick>>)
         \union If(~e.same, <<"tick differs from the history", tick>>)
         \union If(e.n0 # 0, <<"list of new orders is not empty", e.n0>>)
         \union If(<<e.b, e.q>> # <<acct[1], acct[2]>>, <<"balances at the update", tick>>)
    [] PROP = "P11" -> If(tick > 0 /\ ~SignalsOk(e), <<"side input", tick, e.sig, e.raw, WantSig(tick)>>)
    [] OTHER -> {}
BadSt(e) ==
  IF PROP # "P13" THEN {} ELSE
  If(~updd \/ std, <<"trader row without update", tick>>) \union If(~e.ok, <<"trader row is not the current state">>)

(* ---- the report (P12) ---- *)
Tol(n) == IF Case.tol = 0 THEN 0 ELSE AbsI(n) \div 262144 + 1
Safe(n) == AbsI(n) < 16777216
ValueOk(v, q, p, b) ==
  IF ~(Safe(q) /\ AbsI(p) < 32768 /\ AbsI(b) < 32768) THEN FALSE ELSE AbsI(v - (q + p * b)) <= Tol(q + p * b) + (IF Case.bu = 0 THEN AbsI(p) \div 2 + 1 ELSE 0)
Report ==
  LET x == R.res IN
  IF NT = 0 THEN If(~x.empty, <<"report of an empty history">>) \union If(R.nu # 0, <<"update on an empty history">>)
  ELSE If(x.sa # <<R.start.a[1], R.start.a[2]>>, <<"start balances">>)
       \union If(x.ea # acct, <<"end balances or fee", x.n>>)
       \union If(x.pb # x.xp, <<"start or end price", x.p>>)
       \union If(~ValueOk(x.v[1], x.n[2], x.p[1], x.n[1]), <<"start value", x.v, x.n, x.p>>)
       \union If(~ValueOk(x.v[2], x.n[4], x.p[2], x.n[3]), <<"end value", x.v, x.n, x.p>>)
       \union If(x.orders # nex + R.past[5], <<"number of executed orders", x.orders, nex, R.past>>)
\* R.past: unrecorded flat traded ticks in front: how many, rows, updates, executions, orders that had to fill, updates with a non-empty list
Past ==
  CASE PROP = "P08" -> If(R.past[4] # R.past[5], <<"executions before the recorded ticks", R.past>>)
    [] PROP = "P09" -> If(R.past[3] # R.past[1] \/ R.past[6] # 0, <<"updates before the recorded ticks", R.past>>)
    [] OTHER -> {}
EndOfRun ==
  If(tick # NT /\ PROP = "P09", <<"run ended early", tick>>)
  \union LeaveTick \union Past \union (IF PROP = "P12" THEN Report ELSE {})

(* ---- pseudo-run 0: comparisons ---- *)
Visible(x, n) == SelectSeq(x.ev, LAMBDA e : e.k \in {"row", "exec", "upd"} /\ e.i <= n)
Ds(s) == [i \in DOMAIN s |-> s[i].d]
BadFuture ==   \* P10: runs 1 and 2 (3 and 4: without a logger) share the first Case.common ticks
  UNION {LET a == Visible(Case.runs[k], Case.common)
             b == Visible(Case.runs[k + 1], Case.common)
         IN If(Ds(a) # Ds(b), <<"the past depends on the future", k,
               CHOOSE i \in 1 .. Len(a) + 1 : (i > Len(a) \/ i > Len(b) \/ a[i].d # b[i].d) /\ \A j \in 1 .. i - 1 : a[j].d = b[j].d>>)
         : k \in {1, 3} \cap DOMAIN Case.runs}
BadSame ==     \* P13: observers and volatility do not influence the simulation
  {<<"run differs from run 1", k>> : k \in
     {k \in DOMAIN Case.runs : <<Case.runs[k].ud, Case.runs[k].nu, Case.runs[k].rd>> # <<Case.runs[1].ud, Case.runs[1].nu, Case.runs[1].rd>>}}
\* a printed number (thousandths) and its value n * sc[1] / sc[2]
Printed(f, n, sc) == /\ AbsI(f) < 60000000 /\ AbsI(n) < 2000000
                     /\ 2 * AbsI(f * sc[2] - n * sc[1] * 1000) <= sc[2]
RowsOf(x) == SelectSeq(x.ev, LAMBDA e : e.k \in {"row", "exec"})
CsvRowOk(w, e, t) ==
  /\ w.ok /\ w.ts = Ts(t)
  /\ \A j \in 1 .. 4 : Printed(w.t[j], t[j + 1], Case.sp)
  /\ Printed(w.t[5], t[6], Case.sb)
  /\ Printed(w.a[1], e.n[1], Case.sb) /\ Printed(w.a[2], e.n[2], Case.sq) /\ Printed(w.a[3], e.n[3], Case.sq)
  /\ IF e.k = "row" THEN w.o = "none"
     ELSE /\ w.o = "order" /\ w.ty = e.o.ty /\ w.sd = e.o.sd
          /\ IF e.o.hb THEN w.ba # -1 /\ Printed(w.ba, e.o.ba, Case.sb) /\ w.qa = -1
             ELSE w.qa # -1 /\ Printed(w.qa, e.o.qa, Case.sq) /\ w.ba = -1
          /\ IF e.o.pr = 0 THEN w.pr = -1 ELSE w.pr # -1 /\ Printed(w.pr, e.o.pr, Case.sp)
BadCsv ==
  UNION {LET x == Case.runs[k]
             rows == RowsOf(Case.runs[1])
         IN IF ~x.iscsv THEN {} ELSE
            If(~x.nl, <<"unterminated CSV row">>)
            \union If(Len(x.csv) # Len(rows), <<"CSV rows", Len(x.csv), Len(rows)>>)
            \union If(x.tl # [i \in 1 .. Case.runs[1].nu |-> i], <<"trader log rows">>)
            \union (IF Len(x.csv) # Len(rows) THEN {} ELSE
                    {<<"CSV row", i, x.csv[i], rows[i]>> : i \in
                       {i \in DOMAIN rows : rows[i].i = 0 \/ ~CsvRowOk(x.csv[i], rows[i], Case.runs[1].t[rows[i].i])}})
         : k \in DOMAIN Case.runs}
BadLook ==     \* P11: look-ups with and without a hint
  {<<"look-up", Case.look[i], Latest(Case.ls, Case.look[i].t)>> : i \in
     {i \in DOMAIN Case.look :
        LET q == Case.look[i]
            k == Latest(Case.ls, q.t)
        IN ~(/\ q.plain = k /\ q.hinted = k /\ q.kept
             /\ q.cnt[1] = Len(Case.ls)
             /\ k > 0 => q.ts = Case.ls[k].t /\ q.sig = Case.ls[k].x /\ q.one = Case.ls[k].x /\ q.cnt[2] = Len(q.sig))}}

Bad ==
  IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE
  IF r = 0 THEN
    CASE PROP = "P10" -> IF Case.common > 0 THEN BadFuture ELSE {}
      [] PROP = "P13" -> IF Case.same THEN BadSame \union BadCsv ELSE {}
      [] PROP = "P11" -> BadLook
      [] OTHER -> {}
  ELSE IF l > Len(R.ev) THEN EndOfRun
  ELSE CASE Ev.k = "t" -> LeaveTick
         [] Ev.k = "row" -> BadRow(Ev)
         [] Ev.k = "exec" -> BadExec(Ev)
         [] Ev.k = "upd" -> BadUpd(Ev)
         [] Ev.k = "st" -> BadSt(Ev)
Accepted == Bad = {}

Init ==
  /\ c \in 1 .. Len(Cases)
  /\ r \in 0 .. Len(Cases[c].runs)
  /\ r > 0 => Cases[c].runs[r].seen       \* runs without a recorder are only compared
  /\ l = 1 /\ tick = 0 /\ pend = <<>> /\ cur = 1 /\ can = <<>> /\ aft = <<>>
  /\ updd = FALSE /\ rowd = FALSE /\ std = FALSE /\ upds = 0 /\ nex = 0
  /\ acct = IF r = 0 THEN <<>> ELSE Cases[c].runs[r].start.a
Step(k) == r > 0 /\ l <= Len(R.ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED <<c, r>>
Tick == /\ Step("t")
        /\ tick' = Ev.i /\ cur' = 1 /\ can' = Ev.can /\ aft' = Ev.aft
        /\ updd' = FALSE /\ rowd' = FALSE /\ std' = FALSE
        /\ UNCHANGED <<acct, pend, upds, nex>>
Row == Step("row") /\ rowd' = TRUE /\ UNCHANGED <<tick, acct, pend, cur, can, aft, updd, std, upds, nex>>
Exec == /\ Step("exec")
        /\ acct' = Ev.a /\ can' = Ev.can /\ aft' = Ev.aft /\ nex' = nex + 1
        /\ IF Match(Ev) = {} THEN UNCHANGED <<pend, cur>>
           ELSE LET j == MinS(Match(Ev)) IN
                cur' = j /\ pend' = SubSeq(pend, 1, j - 1) \o SubSeq(pend, j + 1, Len(pend))
        /\ UNCHANGED <<tick, updd, rowd, std, upds>>
Upd == /\ Step("upd")
       /\ upds' = upds + 1 /\ updd' = TRUE
       /\ pend' = [n \in DOMAIN Ev.em |-> [em |-> upds + 1, n |-> n]]
       /\ cur' = Len(Ev.em) + 1            \* nothing of this batch can execute on this tick
       /\ UNCHANGED <<tick, acct, can, aft, rowd, std, nex>>
St == Step("st") /\ std' = TRUE /\ UNCHANGED <<tick, acct, pend, cur, can, aft, updd, rowd, upds, nex>>
Next == Tick \/ Row \/ Exec \/ Upd \/ St
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, run |-> r, step |-> l, tick |-> tick, active |-> pend, cursor |-> cur, bad |-> Bad]
=============================================================================
