------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* A writer serializes records into a compressor that passes bytes on to a *)
(* device whenever it likes and appends a trailer when closed.  The device *)
(* may fill up and the process may crash at any point; bytes may then be   *)
(* damaged.  A reader later takes records until the data ends, it is asked *)
(* to stop or it is told to fail.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, StorageOps, TLC, Json, IOUtils
CONSTANTS Sizes, MaxLen
VARIABLES recs, cap,          \* what is written, how much the device takes
          next, sent, out, trailer, wstat,
          bad,                \* the stored bytes were damaged
          stop, n, pos, rstat
vars == <<recs, cap, next, sent, out, trailer, wstat, bad, stop, n, pos, rstat>>
Seqs == UNION {[1 .. k -> Sizes] : k \in 0 .. MaxLen}
ASSUME "WORLD_FILE" \notin DOMAIN IOEnv \/
  JsonSerialize(IOEnv.WORLD_FILE, [sizes |-> Sizes, maxlen |-> MaxLen])
ASSUME \A s \in Sizes, k \in 1 .. MaxLen : LET U == [i \in 1 .. k |-> s] IN
  /\ TotalU(k, s) = Total(U)
  /\ \A a \in 0 .. Total(U) : CompleteU(a, k, s) = Complete(a, Ends(U)) /\ BoundaryU(a, s) = Boundary(a, Ends(U))
Size == Total(recs)
E == Ends(recs)
Init == /\ recs \in Seqs /\ cap \in 0 .. Total(recs) + 1
        /\ next = 1 /\ sent = 0 /\ out = 0 /\ trailer = FALSE /\ wstat = "busy" /\ bad = FALSE
        /\ stop = 0 /\ n = 0 /\ pos = 0 /\ rstat = "off"
R == <<stop, n, pos, rstat>>
Encode == /\ wstat = "busy" /\ next <= Len(recs) /\ next' = next + 1 /\ sent' = sent + Frame(recs[next])
             /\ UNCHANGED <<recs, cap, out, trailer, wstat, bad, R>>
\* the device takes what fits; a write that does not fit is reported
Emit == /\ wstat = "busy" /\ out < sent
        /\ \E k \in out + 1 .. sent :
             /\ out' = Min(k, cap)
             /\ wstat' = IF k > cap THEN "failed" ELSE wstat
        /\ UNCHANGED <<recs, cap, next, sent, trailer, bad, R>>
Close == /\ wstat = "busy" /\ next > Len(recs) /\ out = sent
         /\ IF out < cap THEN trailer' = TRUE /\ wstat' = "ok" ELSE wstat' = "failed" /\ UNCHANGED trailer
         /\ UNCHANGED <<recs, cap, next, sent, out, bad, R>>
Crash == wstat = "busy" /\ wstat' = "crashed" /\ UNCHANGED <<recs, cap, next, sent, out, trailer, bad, R>>
Damage == wstat # "busy" /\ rstat = "off" /\ ~bad /\ out > 0 /\ bad' = TRUE /\ UNCHANGED <<recs, cap, next, sent, out, trailer, wstat, R>>
Open == /\ wstat # "busy" /\ rstat = "off" /\ rstat' = "reading"
        /\ stop' \in -(Len(recs) + 1) .. Len(recs) + 1
        /\ UNCHANGED <<recs, cap, next, sent, out, trailer, wstat, bad, n, pos>>
\* the next record is complete: deliver it
Take == /\ rstat = "reading" /\ n < Len(recs) /\ pos + Frame(recs[n + 1]) <= out
        /\ n' = n + 1 /\ pos' = pos + Frame(recs[n + 1])
        /\ rstat' = IF stop = n + 1 THEN "ok" ELSE IF stop = -(n + 1) THEN "aborted" ELSE "reading"
        /\ UNCHANGED <<recs, cap, next, sent, out, trailer, wstat, bad, stop>>
\* damage is noticed by the decompressor on the way or by the checksum at the end
Notice == rstat = "reading" /\ bad /\ rstat' = "error" /\ UNCHANGED <<recs, cap, next, sent, out, trailer, wstat, bad, stop, n, pos>>
End == /\ rstat = "reading" /\ IF n < Len(recs) THEN pos + Frame(recs[n + 1]) > out ELSE TRUE
       /\ rstat' = IF pos < out \/ (bad /\ trailer) THEN "error" ELSE "ok"
       /\ UNCHANGED <<recs, cap, next, sent, out, trailer, wstat, bad, stop, n, pos>>
Next == Encode \/ Emit \/ Close \/ Crash \/ Damage \/ Open \/ Take \/ Notice \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Encode \/ Emit \/ Close) /\ WF_vars(Open \/ Take \/ End)

Done == rstat \in {"ok", "error", "aborted"}
Written == wstat = "ok" => out = Size /\ trailer
Prefix == n <= Complete(out, E)
RoundTrip == Done /\ wstat = "ok" /\ ~bad => LET x == ReadOutcome(Len(recs), TRUE, stop) IN n = x.n /\ rstat = x.status
\* a cut file: what a reader must do is determined by the bytes available
CutFile == Done /\ ~bad => LET x == ReadOutcome(Complete(out, E), Boundary(out, E), stop) IN n = x.n /\ rstat = x.status
\* damage with the trailer present is always noticed when read to the end
Noticed == Done /\ bad /\ trailer /\ stop = 0 => rstat = "error"
Ends_ == <>Done
=============================================================================
