------------------------------- MODULE Convert -------------------------------
(* The whole conversion: choice of the input, reading line by line, writing  *)
(* of the outputs; files that cannot be opened and devices that fail.        *)
EXTENDS Integers, Sequences, FiniteSets, ConvertOps
CONSTANTS Times, MaxLen, Bounds
VARIABLES inputs, lines, lo, hi, wanted, broken, timesok, readable,   \* chosen by the environment
          phase, pos, kept, files, code
env == <<inputs, lines, lo, hi, wanted, broken, timesok, readable>>
vars == <<env, phase, pos, kept, files, code>>

Line == [ok : {TRUE}, t : Times, pos : {TRUE}, valid : BOOLEAN, n : 0 .. 1]
Lines == {[ok |-> TRUE, t |-> t, pos |-> t > 0, valid |-> v, n |-> 1] : t \in Times, v \in BOOLEAN}
         \union {[ok |-> FALSE, t |-> 0, pos |-> FALSE, valid |-> FALSE, n |-> 1]}
         \union {[ok |-> TRUE, t |-> t, pos |-> t > 0, valid |-> TRUE, n |-> n] : t \in Times, n \in {0, 2}}
RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in SeqsOf(S, n - 1), x \in S}
InputOf == CHOOSE i \in inputs : TRUE
Kind == KindOf(InputOf)
\* a record of side inputs needs a signal
Valid(x) == x.valid /\ (Kind = "side" => x.n > 0)
\* lines allowed for a kind of input
LinesFor(kind) == IF kind = "side" THEN {x \in Lines : x.valid \/ ~x.ok} ELSE {x \in Lines : x.n = 1}
\* where the environment can vary without limits, it does so one aspect at a time
Init ==
  /\ \/ /\ inputs \in SUBSET Inputs /\ lines = <<>> /\ lo = <<>> /\ hi = <<>> /\ wanted \in SUBSET Outputs
        /\ broken = {} /\ timesok \in BOOLEAN /\ readable \in BOOLEAN
     \/ /\ inputs \in {{"price_csv"}, {"side_csv"}} /\ lines \in UNION {SeqsOf(LinesFor(KindOf(CHOOSE i \in inputs : TRUE)), n) : n \in 0 .. MaxLen}
        /\ lo \in {<<b>> : b \in Bounds} \union {<<>>} /\ hi \in {<<b>> : b \in Bounds} \union {<<>>}
        /\ wanted = Outputs /\ broken = {} /\ timesok = TRUE /\ readable = TRUE
     \/ /\ inputs \in {{i} : i \in Inputs} /\ lines \in UNION {SeqsOf(LinesFor(KindOf(CHOOSE i \in inputs : TRUE)), n) : n \in 0 .. 1}
        /\ lo = <<>> /\ hi = <<>> /\ wanted \in SUBSET Outputs /\ broken \in SUBSET Outputs /\ timesok = TRUE /\ readable = TRUE
  /\ phase = "flags" /\ pos = 1 /\ kept = <<>> /\ code = 0
  /\ files = [o \in Outputs |-> <<"old">>]

Fail == phase' = "done" /\ code' = 1 /\ UNCHANGED <<pos, kept, files>>
Flags == phase = "flags" /\ UNCHANGED env /\
  IF ~timesok \/ ~Selects(inputs) THEN Fail ELSE phase' = "open" /\ UNCHANGED <<pos, kept, files, code>>
Open == phase = "open" /\ UNCHANGED env /\
  IF ~readable THEN Fail ELSE phase' = "read" /\ UNCHANGED <<pos, kept, files, code>>
Prev == IF kept = <<>> THEN <<>> ELSE <<kept[Len(kept)].t>>
Sig == IF kept = <<>> THEN 0 ELSE kept[Len(kept)].n
Read == phase = "read" /\ UNCHANGED env /\
  IF pos > Len(lines) THEN phase' = "convert" /\ UNCHANGED <<pos, kept, files, code>>
  ELSE LET v == Verdict(lines[pos], Prev, Sig, lo, hi, Kind, Valid) IN
       CASE v = "error" -> Fail
         [] v = "end" -> phase' = "convert" /\ UNCHANGED <<pos, kept, files, code>>
         [] v = "skip" -> pos' = pos + 1 /\ UNCHANGED <<phase, kept, files, code>>
         [] v = "keep" -> pos' = pos + 1 /\ kept' = Append(kept, lines[pos]) /\ UNCHANGED <<phase, files, code>>
Convert == phase = "convert" /\ UNCHANGED env /\ phase' = "price" /\ UNCHANGED <<pos, kept, files, code>>
\* what an output holds: the records themselves or their resampling
Content(o) == IF o = Kind THEN <<"records", kept>> ELSE <<"ticks of", kept>>
Write(o, next) == phase = o /\ UNCHANGED env /\
  IF kept = <<>> \/ o \notin wanted \intersect Produces(Kind) THEN phase' = next /\ UNCHANGED <<pos, kept, files, code>>
  ELSE IF o \in broken THEN phase' = "done" /\ code' = 1 /\ files' = [files EXCEPT ![o] = <<"broken">>] /\ UNCHANGED <<pos, kept>>
  ELSE phase' = next /\ files' = [files EXCEPT ![o] = Content(o)] /\ UNCHANGED <<pos, kept, code>>
Next == Flags \/ Open \/ Read \/ Convert \/ Write("price", "ohlc") \/ Write("ohlc", "side") \/ Write("side", "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
InputError == ~timesok \/ ~Selects(inputs) \/ ~readable \/ (Selects(inputs) /\ Refused(lines, lo, hi, Kind, Valid))
\* the records kept are those of the definition
KeptAreImported == phase \in {"convert", "price", "ohlc", "side"} => kept = Imported(lines, lo, hi)
\* an error in the input is an error of the tool and no file is touched
FailsLoudly == Done /\ InputError => code = 1 /\ \A o \in Outputs : files[o] = <<"old">>
\* success means that every requested output of a non-empty history is complete
WritesAll == Done /\ code = 0 =>
  /\ ~InputError
  /\ \A o \in Outputs : files[o] = IF o \in wanted \intersect Produces(Kind) /\ Imported(lines, lo, hi) # <<>>
                                   THEN (IF o = Kind THEN <<"records", Imported(lines, lo, hi)>> ELSE <<"ticks of", Imported(lines, lo, hi)>>)
                                   ELSE <<"old">>
\* a failed write is never a success
NoSilentLoss == Done /\ (\E o \in Outputs : files[o] = <<"broken">>) => code = 1
OnlyReasons == Done /\ code = 1 => InputError \/ \E o \in Outputs : files[o] = <<"broken">>
\* only times in range, in order
InRange == \A i \in DOMAIN kept : ~Early(kept[i], lo) /\ ~Late(kept[i], hi) /\ (i > 1 => kept[i - 1].t <= kept[i].t)
Terminates == <>Done
=============================================================================
