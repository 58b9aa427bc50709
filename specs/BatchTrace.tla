------------------------------ MODULE BatchTrace ------------------------------
(* Conformance of recorded batch evaluations.  alone[i]: digest of the whole  *)
(* result of evaluating trader i alone; got: [name, d] per returned result;    *)
(* names may coincide although the traders differ.                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l
vars == <<c, l>>
Case == Cases[c]
If(b, x) == IF b THEN {x} ELSE {}
Bad ==
  IF Case.crash # "" THEN {<<"crash or hang", Case.crash>>} ELSE
  IF l = 0 THEN If(Len(Case.got) # Len(Case.alone), <<"number of results", Len(Case.got), Len(Case.alone)>>)
  ELSE If(Case.got[l].name # Case.names[l], <<"result of another trader", l, Case.got[l].name>>)
       \union If(Case.got[l].d # Case.alone[l], <<"result differs from evaluating the trader alone", l>>)
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == Case.crash = "" /\ l < Len(Case.alone) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, trader |-> l, bad |-> Bad]
=============================================================================
