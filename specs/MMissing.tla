------------------------------ MODULE MMissing ------------------------------
(* A sparse-occupancy test as a process: windows of L bits slide over a stream one  *)
(* bit at a time and mark a table.  What the table misses is what the set of the    *)
(* windows misses, whatever the stream; a table of counters that wrap is not enough. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS L, N, Mod          \* window length, stream length, counters modulo Mod (0: marks only)
VARIABLES bits, table
W == 0..2 ^ L - 1
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE 2 * Num(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Windows(b) == {Num(SubSeq(b, k, k + L - 1)) : k \in 1..(Len(b) - L + 1)}
Init == bits = <<>> /\ table = [w \in W |-> 0]
Mark(w) == IF Mod = 0 THEN 1 ELSE (table[w] + 1) % Mod
Next == /\ Len(bits) < N
        /\ \E b \in {0, 1} : bits' = Append(bits, b)
        /\ table' = IF Len(bits') < L THEN table
                    ELSE LET w == Num(SubSeq(bits', Len(bits') - L + 1, Len(bits'))) IN [table EXCEPT ![w] = Mark(w)]
Spec == Init /\ [][Next]_<<bits, table>>
Holes == Cardinality({w \in W : table[w] = 0})
Exact == Holes = Cardinality(W \ Windows(bits))
Bounded == Holes >= Cardinality(W) - (IF Len(bits) < L THEN 0 ELSE Len(bits) - L + 1)
(* reading the stream backwards misses the same number of words *)
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Mirror == Cardinality(Windows(bits)) = Cardinality(Windows(Rev(bits)))
OnlyLess == [][Cardinality(Windows(bits')) >= Cardinality(Windows(bits))]_bits
=============================================================================
