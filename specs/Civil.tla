------------------------------- MODULE Civil -------------------------------
(* Proleptic Gregorian calendar in UTC.  An instant is a pair of a day      *)
(* number (1970-01-01 is day 0) and a second of the day.                    *)
EXTENDS Integers, Sequences, TLC

IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN IF IsLeap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* Day number of a civil date; d may lie beyond the end of the month.
DaysFromCivil(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy % 400
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
CivilFromDays(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400
  IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>

ValidDate(y, m, d) == m \in 1 .. 12 /\ d \in 1 .. MonthLen(y, m)
ValidTime(h, mi, s) == h \in 0 .. 23 /\ mi \in 0 .. 59 /\ s \in 0 .. 59

(* P31: months are added to the civil month; day and time of day stay; a    *)
(* day beyond the end of the month is carried into the next month.          *)
AddMonthsDay(n, k) ==
  LET t == CivilFromDays(n)
      m0 == (t[1] * 12 + t[2] - 1) + k
  IN DaysFromCivil(m0 \div 12, (m0 % 12) + 1, t[3])

\* Instant of civil fields at UTC offset off (minutes): <<day, second>>.
Normalize(day, s) == <<day + s \div 86400, s % 86400>>
Instant(y, m, d, h, mi, s, off) == Normalize(DaysFromCivil(y, m, d), h * 3600 + mi * 60 + s - off * 60)

(* ---- text ---- *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
AbsN(n) == IF n < 0 THEN -n ELSE n
DateText(y, m, d) == ToString(y) \o "-" \o Pad2(m) \o "-" \o Pad2(d)
TimeText(h, mi, s) == Pad2(h) \o ":" \o Pad2(mi) \o ":" \o Pad2(s)
OffText(off) == (IF off < 0 THEN "-" ELSE "+") \o Pad2(AbsN(off) \div 60) \o ":" \o Pad2(AbsN(off) % 60)
FormatUTC(day, s) ==
  LET t == CivilFromDays(day) IN
  DateText(t[1], t[2], t[3]) \o " " \o TimeText(s \div 3600, (s % 3600) \div 60, s % 60)
\* The five accepted formats.
Text(fmt, y, m, d, h, mi, s, off) ==
  CASE fmt = 1 -> DateText(y, m, d)
    [] fmt = 2 -> DateText(y, m, d) \o " " \o OffText(off)
    [] fmt = 3 -> DateText(y, m, d) \o " " \o TimeText(h, mi, s)
    [] fmt = 4 -> DateText(y, m, d) \o " " \o TimeText(h, mi, s) \o " " \o OffText(off)
    [] fmt = 5 -> DateText(y, m, d) \o "T" \o TimeText(h, mi, s) \o OffText(off)
HasTime(fmt) == fmt \in {3, 4, 5}
HasOff(fmt) == fmt \in {2, 4, 5}
Denotes(fmt, y, m, d, h, mi, s, off) ==
  Instant(y, m, d, IF HasTime(fmt) THEN h ELSE 0, IF HasTime(fmt) THEN mi ELSE 0, IF HasTime(fmt) THEN s ELSE 0,
          IF HasOff(fmt) THEN off ELSE 0)
=============================================================================
