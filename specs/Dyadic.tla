------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact arithmetic on binary fractions of any size.  A number is          *)
(*   [s |-> sign, d |-> digits, e |-> exponent]                            *)
(* with value s * sum d[i] * 4096^(i-1+e).  Every finite float is such a   *)
(* number, so formulas over observed floats are evaluated without error;   *)
(* quotients are decided by cross-multiplication and logarithms / square   *)
(* roots by verifying a given witness.                                     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Base == 4096
RECURSIVE StripHi(_), StripLo(_), WCarry(_, _, _, _), WCol(_, _, _, _, _), WCmpAt(_, _, _), WBorrow(_, _, _, _, _), WDivAt(_, _, _, _, _), Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
StripHi(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripHi(SubSeq(d, 1, Len(d) - 1)) ELSE d
StripLo(x) == IF x.d # <<>> /\ x.d[1] = 0 THEN StripLo([x EXCEPT !.d = Tail(@), !.e = @ + 1]) ELSE x
Zero == [s |-> 0, d |-> <<>>, e |-> 0]
Make(s, d, e) == LET h == StripHi(d) IN IF h = <<>> THEN Zero ELSE StripLo([s |-> s, d |-> h, e |-> e])

\* columns c[1..n] (each below 2^31) to digits
WCarry(c, i, k, acc) ==
  IF i > Len(c) THEN (IF k = 0 THEN acc ELSE WCarry(c, i, k \div Base, Append(acc, k % Base)))
  ELSE LET v == c[i] + k IN WCarry(c, i + 1, v \div Base, Append(acc, v % Base))
At(d, i) == IF i \in 1 .. Len(d) THEN d[i] ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
WAdd(a, b) == WCarry(TLCEval([i \in 1 .. MaxI(Len(a), Len(b)) |-> At(a, i) + At(b, i)]), 1, 0, <<>>)
WCol(a, b, k, i, acc) == IF i > MinI(k, Len(a)) THEN acc
  ELSE WCol(a, b, k, i + 1, acc + a[i] * b[k + 1 - i])
WMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE WCarry(TLCEval([k \in 1 .. Len(a) + Len(b) - 1 |-> WCol(a, b, k, MaxI(1, k + 1 - Len(b)), 0)]), 1, 0, <<>>)
WCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) < At(b, i) THEN -1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE WCmpAt(a, b, i - 1)
WCmp(a, b) == WCmpAt(a, b, MaxI(Len(a), Len(b)))
WBorrow(a, b, i, k, acc) ==   \* a - b for a >= b
  IF i > Len(a) THEN acc
  ELSE LET v == a[i] - At(b, i) - k IN WBorrow(a, b, i + 1, IF v < 0 THEN 1 ELSE 0, Append(acc, IF v < 0 THEN v + Base ELSE v))
WSub(a, b) == WBorrow(a, b, 1, 0, <<>>)
Zeros(n) == [i \in 1 .. n |-> 0]
WShift(d, n) == IF n = 0 THEN d ELSE TLCEval(Zeros(n) \o d)
\* short division by 1 <= n < 2^18, most significant digit first
WDivAt(d, n, i, r, acc) == IF i = 0 THEN acc
  ELSE LET v == r * Base + d[i] IN WDivAt(d, n, i - 1, v % n, <<v \div n>> \o acc)

\* m * 2^k for |m| < 2^31
DBin(m, k) ==
  LET q == k \div 12      \* floor
      r == k % 12
      a == IF m < 0 THEN -m ELSE m
  IN IF m = 0 THEN Zero
     ELSE Make(IF m < 0 THEN -1 ELSE 1, WMul(WCarry(<<a>>, 1, 0, <<>>), <<Pow2(r)>>), q)
D(n) == DBin(n, 0)
F(me) == DBin(me[1], me[2])          \* a recorded float <<mantissa, exponent>>
Finite(me) == me[2] < 100000         \* recorded NaN and infinities have a huge exponent
DNeg(a) == [a EXCEPT !.s = -@]
DAbs(a) == [a EXCEPT !.s = IF @ = 0 THEN 0 ELSE 1]
DMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN Zero ELSE Make(a.s * b.s, WMul(a.d, b.d), a.e + b.e)
DAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a ELSE
  LET e == MinI(a.e, b.e)
      x == WShift(a.d, a.e - e)
      y == WShift(b.d, b.e - e)
      c == WCmp(x, y)
  IN IF a.s = b.s THEN Make(a.s, WAdd(x, y), e)
     ELSE IF c = 0 THEN Zero
     ELSE IF c > 0 THEN Make(a.s, WSub(x, y), e) ELSE Make(b.s, WSub(y, x), e)
DSub(a, b) == DAdd(a, DNeg(b))
DCmp(a, b) == DSub(a, b).s
DLe(a, b) == DCmp(a, b) <= 0
DLt(a, b) == DCmp(a, b) < 0
DEq(a, b) == DCmp(a, b) = 0
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DHalf(a, k) == DMul(a, DBin(1, -k))  \* a / 2^k
\* |a - b| <= scale / 2^k
Near(a, b, scale, k) == DLe(DAbs(DSub(a, b)), DHalf(DAbs(scale), k))
Close(a, b, k) == Near(a, b, DMax(DAbs(a), DAbs(b)), k)
\* digits below 4096^lo dropped (towards zero)
DTrunc(a, lo) == IF a.s = 0 \/ a.e >= lo THEN a
  ELSE LET n == lo - a.e IN IF n >= Len(a.d) THEN Zero ELSE Make(a.s, SubSeq(a.d, n + 1, Len(a.d)), lo)
\* a / n for 1 <= n < 2^18, error below 4096^lo
DDivN(a, n, lo) ==
  IF a.s = 0 THEN Zero
  ELSE LET x == IF a.e > lo THEN WShift(a.d, a.e - lo) ELSE a.d
           e == MinI(a.e, lo)
       IN DTrunc(Make(a.s, WDivAt(x, n, Len(x), 0, <<>>), e), lo)
\* sum of a sequence of numbers
RECURSIVE DSumTo(_, _)
DSumTo(s, n) == IF n = 0 THEN Zero ELSE DAdd(DSumTo(s, n - 1), s[n])
DSum(s) == DSumTo(s, Len(s))
\* exp(x) for |x| <= 1, error below about 2^-60 (Taylor series, 24 terms)
RECURSIVE ExpFrom(_, _, _)
ExpFrom(x, k, term) == IF k > 24 \/ term.s = 0 THEN term
  ELSE DAdd(term, ExpFrom(x, k + 1, DDivN(DTrunc(DMul(term, x), -6), k, -6)))
DExpSmall(x) == DTrunc(ExpFrom(DTrunc(x, -6), 1, D(1)), -6)
\* exp(x) for |x| <= 64: halve, then square back
RECURSIVE DExp(_)
DExp(x) == IF DLe(DAbs(x), D(1)) THEN DExpSmall(x)
  ELSE LET h == DExp(DHalf(x, 1)) IN LET q == DMul(h, h) IN DTrunc(q, MinI(q.e + Len(q.d) - 7, 0) )
\* a / b for b # 0, about `bits` significant bits: each round estimates the
\* quotient from the leading digits (from below) and keeps the exact remainder
RECURSIVE DDivRound(_, _, _, _), TopShift(_, _)
TopShift(t, k) == IF t >= 2048 THEN k ELSE TopShift(2 * t, k + 1)
DDivRound(r, b, n, q) ==
  IF r.s = 0 \/ Len(r.d) + r.e < n THEN q
  ELSE LET rl == Len(r.d)
           rt == r.d[rl] * Base + (IF rl > 1 THEN r.d[rl - 1] ELSE 0)
           bl == Len(b.d)
           bt == b.d[bl] + (IF bl > 1 THEN 1 ELSE 0)
           est == Make(1, WCarry(<<rt \div bt>>, 1, 0, <<>>), (rl + r.e - 2) - (bl + b.e - 1))
       IN DDivRound(DSub(r, DMul(est, b)), b, n, DAdd(q, est))
DDiv(a, b, bits) ==
  IF a.s = 0 THEN Zero
  ELSE LET k == TopShift(b.d[Len(b.d)], 0)
           q == DMul(DDivRound(DAbs(a), DMul(DAbs(b), D(Pow2(k))), Len(a.d) + a.e - (bits \div 12) - 1, Zero), D(Pow2(k)))
       IN IF a.s = b.s THEN q ELSE DNeg(q)
\* natural logarithm of x > 0, error below about 2^-44
Ln2 == DAdd(DBin(744261117, -30), DBin(2050617141, -61))    \* ln 2 in two parts
RECURSIVE LnReduce(_, _), AtanhFrom(_, _, _)
LnReduce(x, k) ==      \* x * 2^k with x within [0.7, 1.4]
  IF DLt(DBin(7, -2), x) THEN (IF DLe(D(4096), x) THEN LnReduce(DHalf(x, 12), k + 12) ELSE LnReduce(DHalf(x, 1), k + 1))
  ELSE IF DLt(x, DBin(3, -2)) THEN (IF DLe(x, DBin(1, -12)) THEN LnReduce(DMul(x, D(4096)), k - 12) ELSE LnReduce(DMul(x, D(2)), k - 1))
  ELSE <<x, k>>
AtanhFrom(z2, pow, k) ==    \* sum of z^k / k over odd k up to 41
  IF k > 41 \/ pow.s = 0 THEN Zero
  ELSE DAdd(DDivN(pow, k, -5), AtanhFrom(z2, DTrunc(DMul(pow, z2), -5), k + 2))
\* ln(a / b) for a, b > 0 with a / b within [1/2, 2]: 2 atanh((a - b) / (a + b))
LnRatio(a, b) ==
  LET z == DTrunc(DDiv(DSub(a, b), DAdd(a, b), 50), -5)
  IN DMul(D(2), AtanhFrom(DTrunc(DMul(z, z), -5), z, 1))
DLn(x) == LET r == LnReduce(x, 0) IN DAdd(LnRatio(r[1], D(1)), DMul(D(r[2]), Ln2))
DLnRatio(a, b) == IF DLe(a, DAdd(b, b)) /\ DLe(b, DAdd(a, a)) THEN LnRatio(a, b) ELSE DLn(DDiv(a, b, 50))
=============================================================================
