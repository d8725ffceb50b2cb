------------------------------ MODULE MRepro ------------------------------
(***************************************************************************)
(* C05, the design: tests draw bits from a buffered stream; with per-test     *)
(* reseeding each test must see the stream from its beginning.  A bit is      *)
(* named by the pair (seeding number, position after it); what a test sees    *)
(* is compared with what it sees alone.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS W,            \* bits per generator output
          Tests,        \* number of tests in the series
          MaxTake,      \* bits a test takes
          Discard       \* reseeding empties the buffer
VARIABLES nseed, pos, buf, t, seen
vars == <<nseed, pos, buf, t, seen>>
Init == nseed = 0 /\ pos = 0 /\ buf = <<>> /\ t = 0 /\ seen = <<>>
Reseed == /\ t < Tests
          /\ nseed' = nseed + 1 /\ pos' = 0 /\ t' = t + 1 /\ seen' = <<>>
          /\ buf' = IF Discard THEN <<>> ELSE buf
Fill == [i \in 1..W |-> <<nseed, pos + i>>]
Take == /\ t > 0 /\ Len(seen) < MaxTake
        /\ LET b == IF buf = <<>> THEN Fill ELSE buf IN
           /\ seen' = Append(seen, Head(b)) /\ buf' = Tail(b)
           /\ pos' = IF buf = <<>> THEN pos + W ELSE pos
        /\ UNCHANGED <<nseed, t>>
Next == Reseed \/ Take
Spec == Init /\ [][Next]_vars
Alone == \A i \in 1..Len(seen) : seen[i] = <<nseed, i>>
=============================================================================
