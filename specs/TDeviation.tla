----------------------------- MODULE TDeviation -----------------------------
(* p-values the real code computed (units of 1e-9 in c.p, IEEE pattern in c.bits)  *)
(* for sets of values; c.q is the reference probability of the deviation c.dev.     *)
EXTENDS Deviation, GenRange, Cases
Dev(c) == IF c.kind = 3 THEN Kuiper(c.v, c.G) ELSE KS(c.v, c.G)
Near(a, b, tol) == Abs(a - b) <= tol
Ok(c) == /\ UnitInterval(c.bits)
         /\ Len(c.v) = c.n /\ Sorted(c.after) = Sorted(c.v)       \* the values are kept
         /\ IF c.n = 1 THEN c.p = c.single
            ELSE /\ c.dev = Dev(c)
                 /\ Near(c.p, c.q, c.tol)
                 /\ Near(c.p, c.exact, c.exacttol)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
