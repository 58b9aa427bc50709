------------------------------ MODULE DyadicMC ------------------------------
(* Self-check of Dyadic against machine integers and algebraic laws.        *)
EXTENDS Integers, Sequences, Dyadic
CONSTANTS Ints, Exps
SmallInts == {-4097, 1, 46340}
SmallExps == {-13, 0, 11}
DeepInts == {-70000, -4097, -4096, -4095, -1, 0, 1, 2, 3, 4095, 4096, 4097, 12288, 46340}
DeepExps == {-30, -13, -12, -1, 0, 1, 11, 12, 25}
VARIABLES a, b, i, j
Init == a \in Ints /\ b \in Ints /\ i \in Exps /\ j \in Exps
Next == UNCHANGED <<a, b, i, j>>
Spec == Init /\ [][Next]_<<a, b, i, j>>
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
AbsI(n) == IF n < 0 THEN -n ELSE n
X == DBin(a, i)
Y == DBin(b, j)
Wf(x) == x = Zero \/ (x.s \in {-1, 1} /\ x.d # <<>> /\ x.d[1] # 0 /\ x.d[Len(x.d)] # 0 /\ \A k \in DOMAIN x.d : x.d[k] \in 0 .. Base - 1)
Sane == Wf(X) /\ Wf(DAdd(X, Y)) /\ Wf(DMul(X, Y)) /\ Wf(DSub(X, Y))
IntAdd == DAdd(D(a), D(b)) = D(a + b) /\ DSub(D(a), D(b)) = D(a - b)
IntMul == AbsI(a) < 46000 /\ AbsI(b) < 46000 => DMul(D(a), D(b)) = D(a * b)
IntCmp == DCmp(D(a), D(b)) = Sgn(a - b)
Laws == /\ DAdd(X, Y) = DAdd(Y, X) /\ DMul(X, Y) = DMul(Y, X)
        /\ DSub(DAdd(X, Y), Y) = X
        /\ DMul(DAdd(X, Y), DSub(X, Y)) = DSub(DMul(X, X), DMul(Y, Y))
        /\ (i = j => DCmp(X, Y) = Sgn(a - b))
        /\ DMul(DBin(1, -i), X) = D(a)
Division == b > 0 =>
  LET q == DDivN(X, b, -4) IN /\ DLt(DAbs(DSub(DMul(q, D(b)), X)), DMul(D(b), DBin(1, -48))) /\ Wf(q)
QuotientOk == b # 0 /\ a # 0 => LET q == DDiv(X, Y, 40) IN Close(DMul(q, Y), X, 38)
LnLaws == a > 0 => Near(DExp(DLn(X)), X, X, 36) \/ DLt(D(40), DAbs(DLn(X)))
\* exp(x) exp(-x) = 1 and exp(x)^2 = exp(2x) within 2^-40
ExpLaws == b = 1 /\ i = 0 => LET x == DBin(a, j - 25) IN
  \/ j > 1
  \/ Close(DMul(DExp(x), DExp(DNeg(x))), D(1), 40) /\ Close(DMul(DExp(x), DExp(x)), DExp(DAdd(x, x)), 40)
\* e = 2.718281828459045 in 2^-44
ExpOne == a = 1 /\ b = 1 /\ i = 0 /\ j = 0 =>
  Close(DMul(DExp(D(1)), D(1000000000)), DAdd(D(2000000000), D(718281828)), 30)
LnRatioOk == a > 0 /\ b > 0 => Near(DExp(DLnRatio(X, Y)), DDiv(X, Y, 50), DDiv(X, Y, 50), 36) \/ DLt(D(40), DAbs(DLnRatio(X, Y)))
LnTwo == a = 1 /\ b = 1 /\ i = 0 /\ j = 0 => Close(DExp(Ln2), D(2), 40)
=============================================================================
