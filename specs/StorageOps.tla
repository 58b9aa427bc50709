------------------------------ MODULE StorageOps ------------------------------
(* A stored history is a sequence of frames, each a length (variable number of *)
(* bytes) followed by the body of one record, inside a compressed stream.      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
\* bytes of the length field: seven bits each
RECURSIVE VarintLen(_)
VarintLen(n) == IF n < 128 THEN 1 ELSE 1 + VarintLen(n \div 128)
Frame(size) == VarintLen(size) + size
RECURSIVE EndsTo(_, _, _, _)
EndsTo(sizes, i, at, acc) == IF i > Len(sizes) THEN acc ELSE LET e == at + Frame(sizes[i]) IN EndsTo(sizes, i + 1, e, Append(acc, e))
\* where every record ends
Ends(sizes) == EndsTo(sizes, 1, 0, <<>>)
Total(sizes) == IF sizes = <<>> THEN 0 ELSE Ends(sizes)[Len(sizes)]
\* records wholly within the first `avail` bytes, and whether the bytes end between records
Complete(avail, ends) == Len(SelectSeq(ends, LAMBDA e : e <= avail))
Boundary(avail, ends) == avail = 0 \/ \E i \in DOMAIN ends : ends[i] = avail
\* the same for n records of one size each
TotalU(n, size) == n * Frame(size)
CompleteU(avail, n, size) == LET k == avail \div Frame(size) IN IF k < n THEN k ELSE n
BoundaryU(avail, size) == avail % Frame(size) = 0
Min(a, b) == IF a < b THEN a ELSE b

(* What reading must do.  stop: the reader asks to stop (k > 0) after record k *)
(* or fails (k < 0) on record -k; 0: it reads on to the end.                   *)
ReadOutcome(frames, clean, stop) ==
  IF stop > 0 /\ stop <= frames THEN [n |-> stop, status |-> "ok"]
  ELSE IF stop < 0 /\ -stop <= frames THEN [n |-> -stop, status |-> "aborted"]
  ELSE [n |-> frames, status |-> IF clean THEN "ok" ELSE "error"]
=============================================================================
