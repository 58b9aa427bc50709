---------------------------- MODULE EvaluateTrace ----------------------------
(* Conformance of recorded evaluations.  l = 0: the result as a whole;       *)
(* l = j: the j-th reported period.                                          *)
EXTENDS EvaluateOps, FiniteSets, Dyadic, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
PROP == IOEnv.PROP
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
g == Case.cfg
T == Case.t
P == Case.res.periods
If(b, x) == IF b THEN {x} ELSE {}
Traded(in) == SelectSeq(in, LAMBDA i : T[i][2] # 0)
RECURSIVE Flat(_, _)
Flat(w, n) == IF n = 0 THEN <<>> ELSE Flat(w, n - 1) \o w[n].in
BadWindows ==
  LET W == Fed(g, T)
      U == SelectSeq([k \in DOMAIN W |-> Traded(W[k].in)], LAMBDA u : u # <<>>)
  IN IF [j \in DOMAIN P |-> <<P[j].s, P[j].e>>] # [j \in DOMAIN W |-> <<W[j].s, W[j].e>>]
     THEN {<<"periods", [j \in DOMAIN P |-> <<P[j].s, P[j].e>>], [j \in DOMAIN W |-> <<W[j].s, W[j].e>>]>>}
     ELSE If(Case.rows # Flat(W, Len(W)), <<"ticks executed", Case.rows>>)
          \union If(Case.fed # U, <<"ticks fed to the traders", Case.fed, U>>)
N == Len(P)
(* P15: recorded floats are exact binary fractions <<mantissa, exponent>>, compared  *)
(* by products in exact arithmetic; R roundings of single precision are allowed for. *)
Off(a, b, scale, R) == ~DLe(DAbs(DSub(a, b)), DMul(DBin(R, -24), DAbs(scale)))
Finites(S) == \A i \in DOMAIN S : Finite(S[i])
\* quotient recorded as q of a / b
BadQuotient(what, j, q, a, b) ==
  IF ~Finites(<<a, b>>) \/ F(b).s <= 0 \/ F(a).s < 0 THEN {}
  ELSE If(~Finite(q) \/ Off(DMul(F(q), F(b)), F(a), F(a), 4), <<what, j, q, a, b>>)
BadPeriod(j) ==
  LET x == P[j] IN
  If(~x.alone, <<"period differs from executing it alone", j>>)
  \union If(~x.alone2, <<"period differs from evaluating it alone", j>>)
  \union BadQuotient("final gain", j, x.g, x.v[2], x.v[1])
  \union BadQuotient("base gain", j, x.bg, x.p[2], x.p[1])
\* mean recorded as m of the floats f
BadMean(what, m, f) ==
  IF ~Finites(f) THEN {}
  ELSE LET s == DSum([i \in DOMAIN f |-> F(f[i])])
           a == DSum([i \in DOMAIN f |-> DAbs(F(f[i]))])
       IN If(~Finite(m) \/ Off(DMul(F(m), D(N)), s, a, N + 6), <<what, m, N>>)
\* product of numbers, about 60 significant bits of it
Cut(x) == IF x.s = 0 THEN x ELSE DTrunc(x, x.e + Len(x.d) - 6)
RECURSIVE DProd(_, _)
DProd(f, n) == IF n = 0 THEN D(1) ELSE Cut(DMul(DProd(f, n - 1), F(f[n])))
BadScore(r) ==
  LET G == [j \in DOMAIN P |-> P[j].g]
      B == [j \in DOMAIN P |-> P[j].bg]
  IN IF ~Finites(G) \/ ~Finites(B) \/ \E j \in DOMAIN P : F(B[j]).s <= 0 \/ F(G[j]).s < 0 THEN {}
     ELSE IF ~Finite(r.score) \/ F(r.score).s < 0 THEN {<<"score", r.score>>}
     ELSE LET want == DProd(G, N)
              got == Cut(DMul(DProd([j \in DOMAIN P |-> r.score], N), DProd(B, N)))
          IN If(Off(got, want, want, 4 * N + 8), <<"score", r.score, N>>)
BadAggregates ==
  LET r == Case.res IN
  If(~r.name, <<"trader name">>) \union If(~r.config, <<"configurations">>)
  \union (IF N = 0 THEN If(\E x \in {r.score, r.gain, r.bgain, r.orders, r.fee} : x # <<0, 0>>, <<"aggregates without periods">>)
    ELSE BadMean("average orders", r.orders, [j \in DOMAIN P |-> <<P[j].orders, 0>>])
         \union BadMean("average fee", r.fee, [j \in DOMAIN P |-> P[j].fee])
         \union BadMean("average gain", r.gain, [j \in DOMAIN P |-> P[j].g])
         \union BadMean("average base gain", r.bgain, [j \in DOMAIN P |-> P[j].bg])
         \union BadScore(r))
\* P10: a period whose ticks and side inputs agree in both histories has the same result.
BadFuture ==
  LET Q == Case.res2.periods
      T2 == Case.t2
      SameIn(j, k) ==
        LET a == Inside(g, T, P[j].s, P[j].e)
            b == Inside(g, T2, Q[k].s, Q[k].e)
        IN /\ Len(a) = Len(b) /\ Len(a) > 0
           /\ \A i \in DOMAIN a : T[a[i]] = T2[b[i]]
           /\ LET end == T[a[Len(a)]][1] IN
              SelectSeq(Case.s, LAMBDA x : x.t <= end) = SelectSeq(Case.s2, LAMBDA x : x.t <= end)
  IN {<<"period depends on ticks outside of it", P[j].s, P[j].e>> : j \in
       {j \in DOMAIN P : \E k \in DOMAIN Q : P[j].s = Q[k].s /\ P[j].e = Q[k].e /\ SameIn(j, k) /\ P[j].d # Q[k].d}}
Bad ==
  IF Case.crash # "" THEN {<<"crash or hang", Case.crash>>} ELSE
  CASE PROP = "P14" -> IF l = 0 THEN BadWindows ELSE {}
    [] PROP = "P15" -> IF l = 0 THEN BadAggregates ELSE BadPeriod(l)
    [] PROP = "P10" -> IF l = 0 THEN BadFuture ELSE {}
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == Case.crash = "" /\ l < N /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, period |-> l, bad |-> Bad]
=============================================================================
