------------------------------ MODULE MBinned ------------------------------
(* For every vector of cells: pooling loses no observation (except a pooled       *)
(* cell below the cutoff), does not depend on the order of the cells, and a        *)
(* second pooling changes nothing; the sum is zero only for perfect agreement.      *)
EXTENDS Binned
CONSTANTS N, X, Y, Cut, LoseTail
VARIABLE cells
Init == cells \in [1..N -> X \X Y]
Swap(i) == cells' = [cells EXCEPT ![i] = cells[i + 1], ![i + 1] = cells[i]]
Next == \E i \in 1..N - 1 : Swap(i)
Spec == Init /\ [][Next]_cells
U == IF LoseTail THEN Strong(cells, Cut) ELSE Used(cells, Cut)
Dropped == SelectSeq(Pooled(cells, Cut), LAMBDA c : c[2] < Cut)
Conserved == LET a == Total(U) b == Total(Dropped) t == Total(cells) IN a[1] + b[1] = t[1] /\ a[2] + b[2] = t[2]
Bag(s) == [e \in {s[j] : j \in 1..Len(s)} |-> Cardinality({j \in 1..Len(s) : s[j] = e})]
OrderFree == \A i \in 1..N - 1 : Bag(Used([cells EXCEPT ![i] = cells[i + 1], ![i + 1] = cells[i]], Cut)) = Bag(Used(cells, Cut))
Idempotent == Used(U, Cut) = U
Enough == \A j \in 1..Len(U) : U[j][2] >= Cut
Zero == U # <<>> => (Chi(U, 2520) = 0 <=> \A j \in 1..Len(U) : U[j][1] = U[j][2]) /\ Chi(U, 2520) >= 0
=============================================================================
