----------------------------- MODULE TGenRange -----------------------------
(* One case per generator and seed: the declared range and the least and           *)
(* greatest value among the outputs drawn.                                           *)
EXTENDS GenRange, Cases
Ok(c) == /\ c.max[1] = 0 /\ c.max[2] = 0 /\ Leq(c.min, c.max) /\ c.min # c.max   \* the supply works on 32-bit words
         /\ InRange(c.lo, c.min, c.max) /\ InRange(c.hi, c.min, c.max)
         /\ UnitInterval(c.dlo) /\ UnitInterval(c.dhi) /\ c.nan = 0
         /\ Leq(c.dlo, c.dhi) /\ Leq(c.lo, c.hi)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
