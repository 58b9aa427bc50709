------------------------------ MODULE CivilMC ------------------------------
(* Walks the calendar day by day, as defined by month lengths and leap      *)
(* years, and checks the closed formulas of Civil against it.               *)
EXTENDS Civil
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == /\ y \in FirstYear .. LastYear /\ m = 1 /\ d = 1 /\ n = DaysFromCivil(y, 1, 1)
\* One day later; stops on January 1st, where the next year's walk starts.
Next == /\ <<m, d>> # <<1, 1>> \/ n = DaysFromCivil(y, 1, 1)
        /\ ~(m = 12 /\ d = 31)
        /\ n' = n + 1 /\ UNCHANGED y
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED m ELSE d' = 1 /\ m' = m + 1
Spec == Init /\ [][Next]_vars
Epoch == (y = 1970 /\ m = 1 /\ d = 1) => n = 0
Formula == n = DaysFromCivil(y, m, d) /\ CivilFromDays(n) = <<y, m, d>>
YearEnd == (m = 12 /\ d = 31) => DaysFromCivil(y + 1, 1, 1) = n + 1
\* Months: lands in the right month unless the day is carried; additive on days 1..28.
Months == \A k \in {-25, -12, -1, 0, 1, 2, 11, 12, 13, 30} :
  LET t == CivilFromDays(AddMonthsDay(n, k))
      mm == y * 12 + m - 1 + k
      ty == mm \div 12
      tm == (mm % 12) + 1
      over == d - MonthLen(ty, tm)
  IN /\ over <= 0 => t = <<ty, tm, d>>
     /\ over > 0 => t = <<IF tm = 12 THEN ty + 1 ELSE ty, (tm % 12) + 1, over>>
     /\ AddMonthsDay(n, k) >= AddMonthsDay(n, k - 1) \/ d > 28
Weekday == d <= 28 => AddMonthsDay(AddMonthsDay(n, 5), -5) = n
=============================================================================
