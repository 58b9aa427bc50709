----------------------------- MODULE CivilTrace -----------------------------
(* Conformance of util/time.cc with Civil.  One case = a list of calls.     *)
EXTENDS Civil, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
Ev == Case.ev[l]
If(b, x) == IF b THEN {x} ELSE {}
F(e) == e.f      \* <<fmt, y, m, d, h, mi, s, off>>
BadParse(e) ==
  LET f == F(e)
      valid == ValidDate(f[2], f[3], f[4]) /\ (HasTime(f[1]) => ValidTime(f[5], f[6], f[7]))
      want == Denotes(f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8])
  IN If(e.text # Text(f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]), <<"generator", e.text>>)
     \union If(valid /\ ~e.ok, <<"valid time rejected", e.text>>)
     \union If(~valid /\ e.ok, <<"invalid time accepted", e.text, e.t>>)
     \union If(valid /\ e.ok /\ e.t # want, <<"wrong instant", e.text, e.t, want>>)
     \union If(valid /\ e.ok /\ e.sub, <<"fraction of a second", e.text>>)
BadEv(e) ==
  CASE e.k = "crash" -> {<<"crash", e.why>>}
    [] e.k = "parse" -> BadParse(e)
    [] e.k = "garbage" -> If(e.ok, <<"malformed time accepted", e.text>>)
    [] e.k = "fmt" -> If(e.text # FormatUTC(e.t[1], e.t[2]), <<"format", e.text, FormatUTC(e.t[1], e.t[2])>>)
                      \union If(~e.back, <<"parsing the formatted time does not return it", e.text>>)
    [] e.k = "add" -> LET want == <<AddMonthsDay(e.t[1], e.m), e.t[2]>> IN
                      If(e.r # want, <<"AddMonthsToTimestampSec", e.r, want>>)
                      \union If(e.r2 # want, <<"AddMonthsToTime", e.r2, want>>)
Bad == IF l > Len(Case.ev) THEN {} ELSE BadEv(Ev)
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 1
Next == l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, bad |-> Bad]
=============================================================================
