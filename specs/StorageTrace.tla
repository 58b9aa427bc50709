----------------------------- MODULE StorageTrace -----------------------------
(* Recorded writes and reads of stored histories (P24).                       *)
EXTENDS Integers, Sequences, FiniteSets, StorageOps, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES c, l, ends
vars == <<c, l, ends>>
Case == Cases[c]
Ev == Case.ev
\* [n, size] when all of a case's records have one size (then `sizes` is empty)
Uniform == Case.uni[1] > 0
Records == IF Uniform THEN Case.uni[1] ELSE Len(Case.sizes)
Bytes == IF Uniform THEN TotalU(Case.uni[1], Case.uni[2]) ELSE Total(Case.sizes)
Whole(avail) == IF Uniform THEN CompleteU(avail, Case.uni[1], Case.uni[2]) ELSE Complete(avail, ends)
Between(avail) == IF Uniform THEN BoundaryU(avail, Case.uni[2]) ELSE Boundary(avail, ends)
If(b, x) == IF b THEN {x} ELSE {}
Status(e) == IF e.code = 0 THEN "ok" ELSE IF e.stop < 0 /\ e.code = 10 /\ e.why THEN "aborted" ELSE "error"
\* what reading delivered and reported, given the complete records and whether they end cleanly
BadRead(e, frames, clean) ==
  LET x == ReadOutcome(frames, clean, e.stop) IN
  If(~e.same, <<"other records than written", e.k, e.at>>)
  \union If(e.n # x.n, <<"number of records", e.k, e.at, e.n, x>>)
  \union If(Status(e) # x.status, <<"status", e.k, e.at, e.code, x>>)
BadWrite == If(Case.wcode # 0, <<"writing failed", Case.wcode>>) \union If(Case.zerr \/ Case.plain # Bytes, <<"stored bytes", Case.plain>>)
BadEv(e) ==
  CASE e.k \in {"stream", "file"} -> BadRead(e, Records, TRUE)
    [] e.k = "cut" ->
         If(~e.orig \/ e.zerr, <<"a cut file does not hold a prefix", e.at>>)
         \union (IF e.at = Case.len THEN BadRead(e, Records, TRUE)
                 ELSE BadRead(e, Whole(e.avail), Between(e.avail)))
    [] e.k = "flip" ->
         If(~e.same, <<"other records than stored", e.at>>)
         \union (IF e.zerr \/ ~e.clean THEN If(e.code = 0, <<"damage not reported", e.at>>) \union If(e.n > e.frames, <<"records out of damage", e.at>>)
                 ELSE BadRead(e, e.frames, TRUE))
    [] e.k = "wfile" -> If(e.code # 0, <<"writing the file failed", e.code>>) \union If(~e.same, <<"file differs from what was written">>)
    \* reported success means that everything arrived
    [] e.k \in {"device", "full"} ->
         If(~e.same, <<"device does not hold a prefix", e.cap>>)
         \union If(e.len < Case.len /\ e.code = 0 /\ e.good, <<"incomplete write reported as success", e.k, e.cap, e.len>>)
         \union If(e.cap > Case.len /\ (e.code # 0 \/ e.len # Case.len), <<"write failed without a reason", e.k, e.cap, e.len>>)
    [] e.k = "refused" -> If(e.code = 0 \/ e.n # 0, <<"success reported for", e.what>>)
Bad == IF Case.crash # "" THEN {<<"crash", Case.crash>>} ELSE IF l = 0 THEN BadWrite ELSE BadEv(Ev[l])
Accepted == Bad = {}
Init == c \in 1 .. Len(Cases) /\ l = 0 /\ ends = Ends(Case.sizes)
Next == Case.crash = "" /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED <<c, ends>>
Spec == Init /\ [][Next]_vars
View == [case |-> Case.id, step |-> l, event |-> IF l \in DOMAIN Ev THEN Ev[l] ELSE <<>>, bad |-> Bad]
=============================================================================
