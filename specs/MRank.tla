------------------------------- MODULE MRank -------------------------------
(* For every small matrix, and from it by any sequence of row exchanges and     *)
(* additions: the two definitions agree, and the rank never changes.              *)
EXTENDS Rank
CONSTANTS M, N, ColumnMix
VARIABLES rows, r
vars == <<rows, r>>
Init == rows \in [1..M -> SUBSET (1..N)] /\ r = RankOf(rows)
Exchange(i, j) == rows' = [rows EXCEPT ![i] = rows[j], ![j] = rows[i]]
Add(i, j) == i # j /\ rows' = [rows EXCEPT ![i] = Plus(rows[i], rows[j])]
(* not a row operation: drops a column *)
Drop(x) == ColumnMix /\ rows' = [i \in 1..M |-> rows[i] \ {x}]
Next == r' = r /\ ((\E i, j \in 1..M : Exchange(i, j) \/ Add(i, j)) \/ \E x \in 1..N : Drop(x))
Spec == Init /\ [][Next]_vars
Agree == Rank(rows) = r /\ RankOf(rows) = r
Transpose == [c \in 1..N |-> {i \in 1..M : c \in rows[i]}]
RowIsColumn == Rank(Transpose) = Rank(rows)
Bounds == r <= M /\ r <= N /\ (r = 0 <=> \A i \in 1..M : rows[i] = {})
=============================================================================
