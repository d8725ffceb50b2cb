------------------------------ MODULE MAssess ------------------------------
(* C10: the assessment function over all p-values and threshold pairs of a    *)
(* small grid: total, symmetric, monotone, and it changes exactly at the      *)
(* thresholds.                                                                *)
EXTENDS Session
VARIABLES p, f, w
NoTests == <<>>
C(ff, ww) == [fail |-> ff, weak |-> ww]
Init == /\ p \in 0..One /\ f \in {0, 1, 5, 20, 32} /\ w \in {0, 1, 5, 21, 32}
        /\ cfg = 0 /\ phase = 0 /\ idx = 0 /\ ti = 0 /\ zi = 0 /\ cur = 0 /\ fresh = 0 /\ done = 0 /\ target = 0 /\ rk = 0 /\ ps = 0 /\ rounds = 0
Spec == Init /\ [][UNCHANGED <<p, f, w>> /\ UNCHANGED svars]_<<p, f, w, svars>>
Bad(x) == CASE x = "FAILED" -> 2 [] x = "WEAK" -> 1 [] OTHER -> 0
Laws == LET a == Assess(C(f, w), p) IN
  /\ a \in {"FAILED", "WEAK", "PASSED"}
  /\ a = Assess(C(f, w), One - p)
  /\ (a = "FAILED") <=> (TwoSided(p) < f)
  /\ (a = "WEAK") <=> (TwoSided(p) >= f /\ TwoSided(p) < w)
  /\ (2 * p < One) => Bad(a) >= Bad(Assess(C(f, w), p + 1))
=============================================================================
