------------------------------- MODULE Stdin -------------------------------
(***************************************************************************)
(* The standard-input generator (C15).  Bytes arrive in chunks of any size;   *)
(* the tests take 32-bit words.  A word exists only when all of its W bytes   *)
(* have arrived; when the stream has ended without another whole word, asking  *)
(* for one ends the run with an error and nothing is reported any more.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT W
VARIABLES bytes,      \* all bytes that arrived so far
          eof,        \* the writer closed the stream
          taken,      \* words delivered to the tests
          rows,       \* results reported
          stopped     \* the run ended with an error
svars == <<bytes, eof, taken, rows, stopped>>
Init == bytes = <<>> /\ eof = FALSE /\ taken = 0 /\ rows = 0 /\ stopped = FALSE
Arrive(c) == ~eof /\ bytes' = bytes \o c /\ UNCHANGED <<eof, taken, rows, stopped>>
EndOfStream == ~eof /\ eof' = TRUE /\ UNCHANGED <<bytes, taken, rows, stopped>>
WordAt(i) == SubSeq(bytes, W * (i - 1) + 1, W * i)         \* little-endian bytes of word i
CanTake(n) == W * (taken + n) <= Len(bytes)
Take(w) == ~stopped /\ CanTake(1) /\ w = WordAt(taken + 1) /\ taken' = taken + 1 /\ UNCHANGED <<bytes, eof, rows, stopped>>
Report == ~stopped /\ rows' = rows + 1 /\ UNCHANGED <<bytes, eof, taken, stopped>>
Stop == ~stopped /\ eof /\ ~CanTake(1) /\ stopped' = TRUE /\ UNCHANGED <<bytes, eof, taken, rows>>
=============================================================================
