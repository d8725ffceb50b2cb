-------------------------------- MODULE MXor --------------------------------
(* The code's way: components with positions of their own, for every small      *)
(* set of streams.                                                              *)
EXTENDS Xor
CONSTANTS Len1, Variant
VARIABLES at, last          \* at[j]: outputs drawn from component j; last: the last output
vars == <<S, pos, at, last>>
Streams == [1..2 * Len1 -> {<<0>>, <<1>>}]
Init == S = <<>> /\ pos = 0 /\ at = <<>> /\ last = <<0>>
DoSeed == \E n \in 1..2 : \E T \in [1..n -> Streams] : Seed(T) /\ at' = [j \in 1..n |-> 0] /\ UNCHANGED last
Reseed == S # <<>> /\ Seed(S) /\ at' = [j \in 1..Len(S) |-> IF Variant = "keep" /\ j = 2 THEN at[j] ELSE 0] /\ UNCHANGED last
Draw(j) == IF Variant = "twice" /\ j = 1 THEN 2 ELSE 1
DoGet == /\ S # <<>> /\ pos < Len1
         /\ LET o == [j \in 1..Len(S) |-> S[j][at[j] + Draw(j)]] IN last' = Fold(o, Len(S))
         /\ at' = [j \in 1..Len(S) |-> at[j] + Draw(j)]
         /\ pos' = pos + 1 /\ UNCHANGED S
Next == (S = <<>> /\ DoSeed) \/ Reseed \/ DoGet
Spec == Init /\ [][Next]_vars
Together == \A j \in 1..Len(S) : at[j] = pos
IsXor == [][pos' = pos + 1 => last' = Out(pos + 1)]_vars
=============================================================================
