----------------------------- MODULE MGenStream -----------------------------
(* The code's way: every generator computes on a state word of its own; the      *)
(* wrong variants share it between generators, leave part of it over when         *)
(* seeding, or draw twice for a floating-point value.                              *)
EXTENDS GenStream
CONSTANTS Gens, Seeds, MaxLen, MaxOps, Variant
VARIABLES word, last, nops           \* word[c]: state of cell c; last: last output with its demand
vars == <<st, word, last, nops>>
Cell(i) == IF Variant = "shared" THEN 1 ELSE i
Out(s, k) == <<s, k>>
Stream(s) == [k \in 1..MaxLen |-> Out(s, k)]
Init == st = << >> /\ word = [c \in Gens |-> <<0, 0>>] /\ last = [got |-> <<0, 0>>, want |-> <<0, 0>>] /\ nops = 0
DoSeed(i) == \E s \in Seeds : /\ Seed(i, Stream(s), Stream(s))
                              /\ word' = [word EXCEPT ![Cell(i)] = <<s, IF Variant = "left over" THEN word[i][2] % 2 ELSE 0>>]
                              /\ UNCHANGED last
DoDraw(i, kind) ==
  /\ i \in DOMAIN st /\ st[i].pos < MaxLen
  /\ LET w == word[Cell(i)]
         n == w[2] + (IF Variant = "double draw" /\ kind = "dbl" THEN 2 ELSE 1) IN
     /\ word' = [word EXCEPT ![Cell(i)] = <<w[1], n>>]
     /\ last' = [got |-> Out(w[1], n), want |-> st[i].I[st[i].pos + 1]]
  /\ st' = [st EXCEPT ![i].pos = @ + 1]
Next == nops < MaxOps /\ nops' = nops + 1
        /\ \E i \in Gens : DoSeed(i) \/ DoDraw(i, "int") \/ DoDraw(i, "dbl") \/ (Free(i) /\ UNCHANGED <<word, last>>)
Spec == Init /\ [][Next]_vars
SeedAlone == last.got = last.want
=============================================================================
