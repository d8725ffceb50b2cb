--------------------------------- MODULE Xor ---------------------------------
(***************************************************************************)
(* The combining generator (C18).  S: for the seed in force, the stream of     *)
(* every component (each seeded by the next output of the seed generator);     *)
(* pos: outputs delivered since the last seeding.  Output k is the exclusive    *)
(* or of output k of every component.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise
VARIABLES S, pos
XorWord(a, b) == [h \in 1..Len(a) |-> a[h] ^^ b[h]]
RECURSIVE Fold(_, _)
Fold(ws, k) == IF k = 1 THEN ws[1] ELSE XorWord(Fold(ws, k - 1), ws[k])
Out(k) == Fold([j \in 1..Len(S) |-> S[j][k]], Len(S))
Seed(T) == Len(T) >= 1 /\ S' = T /\ pos' = 0
GetN(vs) == /\ \A i \in 1..Len(vs) : vs[i] = Out(pos + i)
            /\ pos' = pos + Len(vs) /\ UNCHANGED S
=============================================================================
