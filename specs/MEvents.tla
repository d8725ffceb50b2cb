------------------------------ MODULE MEvents ------------------------------
(* Laws of the counts, for every short sequence of small values.                   *)
EXTENDS Events
CONSTANTS N, V, Dir      \* sequences up to length N over V; Dir names a deliberately wrong law
VARIABLE v
Init == v = <<>>
Next == Len(v) < N /\ \E x \in V : v' = Append(v, x)
Spec == Init /\ [][Next]_v
(* repeats: as the definition has it, unaffected by the order of the birthdays *)
Values == {Spacings(v)[i] : i \in 1..Len(v)}
Often(x) == Cardinality({i \in 1..Len(v) : Spacings(v)[i] = x})
RepeatsAre == Repeated(v) = Cardinality({x \in Values : Often(x) > 1})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == Repeated(v) = Repeated(Rev(v))
Same == Repeated(v) = Skipping(Sorted(Spacings(v)), 1)           \* does not hold: the known finding
(* runs: every step ends one run and lengthens one *)
Steps == v # <<>> => LET r == RunsOf(v) IN SumOf(r[1]) + SumOf(r[2]) = Len(v)
UpsEnd == v # <<>> => SumOf(RunsOf(v)[2]) = Cardinality({i \in 1..Len(v) : Ups(v)[i]})
(* orders: one per arrangement *)
OrderDigits == Len(v) \in 1..3 => \A i, j \in 1..Len(v) : v[i] < v[j] <=> Rank(v, i) < Rank(v, j)
(* craps: every game has one length and at most one win; no throw is counted twice *)
Games == LET a == Craps(v, 3, 100) IN SumOf(a[5]) = a[1] /\ a[4] <= a[1] /\ (a[2] = 0 <=> a[3] = 0)
Thrown == LET a == Craps(v, 3, 100) n == Len(Pairs(Dice(v, 3))) IN
          n < 20 => SumOf([i \in 1..21 |-> i * a[5][i]]) + a[3] = n
(* squeezing never grows and ends at 1 *)
Shrinks == \A x \in V : \A y \in 1..5 : Squeezed(y, x % 8, 3) <= y
(* Euclid on the signed images = the greatest common divisor *)
Divs(a) == {d \in 1..a : a % d = 0}
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
GcdIs == Len(v) = 2 /\ v[1] > 0 /\ v[2] > 0 => Euclid(v[1], v[2], 0)[1] = Greatest(Divs(v[1]) \cap Divs(v[2]))
GcdBig == Len(v) = 2 /\ v[1] > 0 /\ v[2] > 0 => Mod(Least + v[1], v[2] + 1) = (((2 ^ 30 % (v[2] + 1)) * 2) + v[1]) % (v[2] + 1)
=============================================================================
