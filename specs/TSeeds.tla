------------------------------- MODULE TSeeds -------------------------------
(* C06: the values a set of runs without a seed option chose.                 *)
EXTENDS Cases, FiniteSets
Ok(r) == /\ Cardinality({r.seeds[i] : i \in 1..Len(r.seeds)}) = Len(r.seeds)
         /\ \A i \in 1..Len(r.seeds) : r.seeds[i] # "0"
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
