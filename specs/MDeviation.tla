----------------------------- MODULE MDeviation -----------------------------
(* For every sequence of at most N values: the deviation is that of the set,      *)
(* mirror-symmetric, zero only for the even spread, at most its largest value,     *)
(* and moving one value by one unit changes it by at most one unit.                *)
EXTENDS Deviation, FiniteSets
CONSTANTS N, G, Biased
VARIABLE v
Init == v \in UNION {[1..n -> 0..G] : n \in 2..N}
Exchange(i, j) == v' = [v EXCEPT ![i] = v[j], ![j] = v[i]]
Next == \E i, j \in 1..Len(v) : i < j /\ Exchange(i, j)
Spec == Init /\ [][Next]_v
n == Len(v)
Dev(w) == IF Biased THEN MaxOf([i \in 1..Len(w) |-> Abs(w[i] * (Len(w) + 1) - i * G)]) ELSE KS(w, G)
SetOnly == \A i, j \in 1..n : Dev([v EXCEPT ![i] = v[j], ![j] = v[i]]) = Dev(v) /\ Kuiper([v EXCEPT ![i] = v[j], ![j] = v[i]], G) = Kuiper(v, G)
Mirror == Dev([i \in 1..n |-> G - v[i]]) = Dev(v)
Even == Dev(v) = 0 <=> \A i \in 1..n : Sorted(v)[i] * (n + 1) = i * G
Bounds == Dev(v) <= n * G /\ Kuiper(v, G) <= G * n /\ Dev(v) >= 0
Lipschitz == \A i \in 1..n : v[i] < G => Abs(Dev([v EXCEPT ![i] = v[i] + 1]) - Dev(v)) <= n + 1
=============================================================================
