---------------------------- MODULE HistoryTrace ----------------------------
(***************************************************************************)
(* Recorded results of the history functions (P19 Resample, P20            *)
(* RemoveOutliers and its context, P21 GetPriceHistoryGaps, P22            *)
(* HistorySubset).  A record is <<time, price, volume>>; price and volume  *)
(* are exact [mantissa, exponent] floats and their ranks (order kept).     *)
(***************************************************************************)
EXTENDS HistoryOps, Dyadic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l, kept
vars == <<c, l, kept>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
R == Case.recs
NR == Len(R)
Px(i) == F(R[i].p)
Vol(i) == F(R[i].v)

(* ---- P19: step l checks tick l ---- *)
Recs == [i \in DOMAIN R |-> <<R[i].t, R[i].rp>>]
Whole(x) == x.e >= 0
Total(m) == DSum([k \in 1 .. Cardinality(m) |-> Vol(CHOOSE i \in m : Cardinality({j \in m : j < i}) = k - 1)])
VolOk(v, m) ==
  IF m = {} THEN v = Zero
  ELSE LET lo == MinS(m)
           hi == MaxS(m)     \* members are consecutive
           s == DSum([k \in 1 .. hi - lo + 1 |-> Vol(lo + k - 1)])
       IN IF Whole(s) /\ Len(s.d) + s.e <= 2 /\ (\A i \in m : Whole(Vol(i))) THEN v = s
          ELSE Near(v, s, DMul(s, D(hi - lo + 2)), 23)
Starts == Case.starts      \* first record of every tick as recorded, for speed: verified
TickBad(k) ==
  LET x == Case.ticks[k]
      b == FirstBucket(Recs, Case.rate, Case.off) + k - 1
      lo == Case.starts[k][1]
      hi == Case.starts[k][2]           \* claimed members lo .. hi (hi = lo - 1: none)
      part == SubSeq(Recs, IF lo > 1 THEN lo - 1 ELSE 1, IF hi < NR THEN hi + 1 ELSE NR)
      \* the claim is right iff exactly lo..hi lie in this interval (times are sorted)
      claim == /\ \A i \in lo .. hi : Bucket(Recs[i][1], Case.rate, Case.off) = b
               /\ lo > 1 => Bucket(Recs[lo - 1][1], Case.rate, Case.off) < b
               /\ hi < NR => Bucket(Recs[hi + 1][1], Case.rate, Case.off) > b
      want == TickOf(part, Case.rate, Case.off, b)
  IN If(~claim, <<"interval claim">>)
     \union If(claim /\ <<x.t, x.o, x.h, x.l, x.c>> # want, <<"tick", k, x, want>>)
     \union If(claim /\ ~VolOk(F(x.v), lo .. hi), <<"volume of tick", k, x.v>>)
BadResample ==
  IF l = 1 THEN If(Len(Case.ticks) # NTicks(Recs, Case.rate, Case.off), <<"number of ticks", Len(Case.ticks), NTicks(Recs, Case.rate, Case.off)>>)
  ELSE IF l - 1 > Len(Case.ticks) \/ Len(Case.ticks) # NTicks(Recs, Case.rate, Case.off) THEN {} ELSE TickBad(l - 1)

(* ---- P20: step l decides record l; kept is the last kept record ---- *)
IsKept(i) == Case.keep[i] = 1
Valid(i) == Px(i).s = 1 /\ Vol(i).s >= 0
DevF == DAdd(D(1), F(Case.dev))
Elapsed(a, b) == LET d == R[b].t - R[a].t IN IF d < 60 THEN 60 ELSE d
\* squared factor times 60:  (1+dev)^2 * seconds
Sq(x) == DMul(x, x)
Fac2(a, b) == DMul(Sq(DevF), D(Elapsed(a, b)))
PowerOfTwo(x) == Len(x.d) = 1 /\ x.d[1] \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
RootExact(d) == d \in {60, 240, 960, 3840}
ExactJump(a, b) == RootExact(Elapsed(a, b)) /\ PowerOfTwo(DevF)
\* comparison of x*x*60 with y*y*fac2: -1, 0 (too close), 1
Cmp2(x, y) == IF Close(x, y, 19) THEN 0 ELSE DCmp(x, y)
Cmp2Exact(x, y, exact) == IF exact THEN (IF DLt(y, x) THEN 1 ELSE -1) ELSE Cmp2(x, y)
Up(a, b) == Cmp2Exact(DMul(Sq(Px(b)), D(60)), DMul(Sq(Px(a)), Fac2(a, b)), ExactJump(a, b))
Down(a, b) == Cmp2Exact(DMul(Sq(Px(a)), D(60)), DMul(Sq(Px(b)), Fac2(a, b)), ExactJump(a, b))
\* does record j lie beyond 0.8 * jump price + 0.2 * reference price
Fifth(x) == DMul(x, D(5))
BeyondUp(a, b, j) ==     \* 5*pj - ref > 4*ref*f
  LET x == DSub(Fifth(Px(j)), Px(a)) IN
  IF x.s <= 0 THEN -1 ELSE Cmp2(DMul(Sq(x), D(60)), DMul(Sq(DMul(D(4), Px(a))), Fac2(a, b)))
BeyondDown(a, b, j) ==   \* (5*pj - ref) * f < 4*ref
  LET x == DSub(Fifth(Px(j)), Px(a)) IN
  IF x.s <= 0 THEN 1 ELSE Cmp2(DMul(Sq(DMul(D(4), Px(a))), D(60)), DMul(Sq(x), Fac2(a, b)))
RECURSIVE Ahead(_, _)
Ahead(j, n) == IF j > NR \/ n = 0 THEN <<>> ELSE IF Valid(j) THEN <<j>> \o Ahead(j + 1, n - 1) ELSE Ahead(j + 1, n)
Count(s, T(_)) == Cardinality({k \in DOMAIN s : T(s[k])})
Confirmed(a, b, up) ==   \* <<surely, possibly>> confirmed by at least 3 of the next 10 valid records
  LET s == Ahead(b + 1, 10)
      q == TLCEval([k \in DOMAIN s |-> IF up THEN BeyondUp(a, b, s[k]) ELSE BeyondDown(a, b, s[k])])
  IN <<Cardinality({k \in DOMAIN s : q[k] > 0}) >= 3, Cardinality({k \in DOMAIN s : q[k] >= 0}) >= 3>>
\* the decisions allowed for record b after last kept a: subset of {keep, drop}
Decisions(a, b) ==
  IF ~Valid(b) THEN {FALSE} ELSE IF a = 0 THEN {TRUE} ELSE
  LET u == Up(a, b)
      d == Down(a, b)
      cu == IF u >= 0 THEN Confirmed(a, b, TRUE) ELSE <<FALSE, FALSE>>
      cd == IF d >= 0 THEN Confirmed(a, b, FALSE) ELSE <<FALSE, FALSE>>
  IN (IF u <= 0 /\ d <= 0 THEN {TRUE} ELSE {})
     \union (IF u >= 0 THEN {x \in BOOLEAN : IF x THEN cu[2] ELSE ~cu[1]} ELSE {})
     \union (IF d >= 0 THEN {x \in BOOLEAN : IF x THEN cd[2] ELSE ~cd[1]} ELSE {})
KeptIdx == SelectSeq([i \in 1 .. NR |-> i], IsKept)
BadOutliers ==
  IF l = 0 THEN {} ELSE
  IF l <= NR THEN If(~(IsKept(l) \in Decisions(kept, l)), <<"record", l, IF IsKept(l) THEN "kept" ELSE "removed", "last kept", kept>>)
  ELSE If(Case.clean # [k \in DOMAIN KeptIdx |-> R[KeptIdx[k]].id], <<"result is not the history without the reported outliers">>)
       \union If(~Case.increasing, <<"outlier indices are not increasing positions">>)
       \union If(~Case.agree, <<"the result depends on whether indices are requested">>)
       \union If(Case.ctx # <<>> /\
                 {<<Case.ctx[k][1], Case.ctx[k][2] = 1>> : k \in DOMAIN Case.ctx} # ContextOf(Case.idx, NR, Case.left, Case.right, Case.lastn),
                 <<"context of the outliers", Case.ctx, Case.idx, Case.left, Case.right, Case.lastn>>)
       \union If(Case.ctx = <<>> /\ Case.idx # <<>>, <<"context is empty">>)

(* ---- P21, P22 ---- *)
Ts == [i \in DOMAIN R |-> R[i].t]
BadGaps == LET want == TopGaps(Ts, Case.s, Case.e, Case.n) IN
  IF l = 0 THEN {} ELSE If(Case.gaps # want, <<"gaps", Case.gaps, want>>)
BadSubset ==
  IF l = 0 THEN {} ELSE
  LET want == Selected(Ts, Case.s, Case.e) IN
  {<<"selection", Case.sel[k], want>> : k \in
     {k \in DOMAIN Case.sel : LET x == Case.sel[k] IN
        ~(/\ x.n = Cardinality(want) /\ x.copy
          /\ want # {} => x.from + 1 = MinS(want) /\ x.from + x.n = MaxS(want))}}

Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>}
       ELSE CASE PROP = "P19" -> (IF l = 0 THEN {} ELSE BadResample)
              [] PROP = "P20" -> BadOutliers
              [] PROP = "P21" -> BadGaps
              [] PROP = "P22" -> BadSubset
Accepted == Bad = {}
Steps == CASE PROP = "P19" -> Len(Case.ticks) + 1 [] PROP = "P20" -> NR + 1 [] OTHER -> 1
Init == c \in 1 .. Len(Cases) /\ l = 0 /\ kept = 0
Next == /\ Case.crash = "" /\ l < Steps /\ l' = l + 1 /\ UNCHANGED c
        /\ kept' = IF PROP = "P20" /\ l >= 1 /\ l <= NR /\ IsKept(l) THEN l ELSE kept
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, lastkept |-> kept, bad |-> Bad]
=============================================================================
