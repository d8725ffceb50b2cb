----------------------------- MODULE MCounting -----------------------------
(* Laws of cyclic tuple counting, for every bit string of up to N bits.          *)
EXTENDS Counting
CONSTANTS N, M, Cyclic
VARIABLE bits
Init == bits \in UNION {[1..n -> {0, 1}] : n \in 3..N}
Rotate == bits' = Append(Tail(bits), Head(bits))
Next == Rotate
Spec == Init /\ [][Next]_bits
T(m) == IF Cyclic THEN Tuples(bits, m) ELSE [k \in 1..Len(bits) + 1 - m |-> Num(bits, k, m)]
Count(m, v) == Cardinality({k \in DOMAIN T(m) : T(m)[k] = v})
Marginal == \A m \in 2..M : \A v \in 0..2 ^ (m - 1) - 1 :
   /\ Count(m - 1, v) = Count(m, 2 * v) + Count(m, 2 * v + 1)          \* last bit dropped
   /\ Count(m - 1, v) = Count(m, v) + Count(m, v + 2 ^ (m - 1))         \* first bit dropped
RotationFree == \A m \in 1..M : Sorted(Tuples(bits, m)) = Sorted(Tuples(Append(Tail(bits), Head(bits)), m))
Square == \A m \in 1..M : SumSquares(T(m)) = SumOf([v \in 1..2 ^ m |-> Count(m, v - 1) * Count(m, v - 1)])
Steps == Serial(bits, M) = [m \in 1..M |-> SumSquares(Tuples(bits, m))]
ChangesAre == Changes(bits) = Count(2, 1) + Count(2, 2) /\ Count(2, 1) = Count(2, 2) /\ Count(1, 1) = SumOf(bits)
(* psi-square grows with the tuple size: its differences are never negative *)
Psi(m) == 2 ^ m * SumSquares(Tuples(bits, m))
Growing == \A m \in 2..M : Psi(m) >= Psi(m - 1)
BlocksAll == \A j \in 0..2 : LET b == Blocks(bits, j) IN SumOf(b) <= SumOf(bits) /\ Len(b) = (Len(bits) + 2 ^ j - 1) \div 2 ^ (j + 1)
                                                   /\ BlockHistogram(bits, j) = Histogram(b, 64 * 2 ^ j)
=============================================================================
