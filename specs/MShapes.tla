------------------------------ MODULE MShapes ------------------------------
(* Laws of the definitions, for every short sequence of small values.               *)
EXTENDS Shapes
CONSTANTS N, V, Bad       \* sequences up to length N over V; Bad: a deliberately wrong variant
VARIABLE v
Init == v = <<>>
Next == Len(v) < N /\ \E x \in V : v' = Append(v, x)
Spec == Init /\ [][Next]_v
P == Points(v, 2, Len(v) \div 2)
NP == Len(P)
(* closest pair: a sorted list and its reach certify exactly the least distance *)
Squares == {a * a + b * b : a, b \in 0..4}
ByX == CHOOSE o \in [1..NP -> 1..NP] : (\A i, j \in 1..NP : i # j => o[i] # o[j]) /\ \A i \in 1..NP - 1 : P[o[i]][1] <= P[o[i + 1]][1]
Undo(o) == [i \in 1..NP |-> CHOOSE j \in 1..NP : o[j] = i]
Reach(o, r) == [i \in 1..NP |-> CHOOSE h \in i..NP : (h = NP \/ P[o[h + 1]][1] - P[o[i]][1] > r) /\ \A g \in i..h - 1 : ~ (P[o[g + 1]][1] - P[o[i]][1] > r)]
Root(m) == CHOOSE r \in 0..6 : r * r >= m /\ \A q \in 0..r - 1 : q * q < m
CertificateDecides == NP \in 2..3 => \A m \in Squares : LET r == Root(m) o == ByX IN
   IsLeast(P, m, r) <=> \E i, j \in 1..NP : Certified(P, m, r, o, Undo(o), Reach(o, r), <<i, j>>)
Least == NP \in 2..3 => Cardinality({m \in Squares : IsLeast(P, m, Root(m))}) = 1
(* parking: the grid of cells parks as many cars as comparing with all of them *)
Q(G) == [i \in 1..NP |-> <<(P[i][1] * G) \div 100, (P[i][2] * G) \div 100>>]
CellsDecide == \A G \in {100, 128} : Len(Park(P, G)) = Parked(P, IF Bad THEN G + 100 ELSE G)
NoTwoCrash == LET s == Park(P, 100) IN \A i, j \in 1..Len(s) : i # j => ~ Crash(s[i], s[j], 100)
(* orders of five: permutations are told apart, 120 in all; shifting all values changes nothing *)
Distinct == \A i, j \in 1..Len(v) : i # j => v[i] # v[j]
OrderTells == Len(v) = 5 /\ Distinct => LET o == Order5(v, 1) IN
   /\ o \in 0..3124 /\ \A i, j \in 0..4 : (v[i + 1] < v[j + 1]) <=> ((o \div 5 ^ (4 - i)) % 5) < ((o \div 5 ^ (4 - j)) % 5)
(* rotation: a bijection that composes, and on pairs the same as on numbers *)
TurnComposes == \A x \in V : \A w \in {4, 5, 12} : \A a, b \in 0..w : x < 2 ^ w => RotL(RotL(x, a, w), b, w) = RotL(x, a + b, w)
TurnPairs == \A x \in V : \A a \in 0..31 : LET p == Turn(<<x * 1000, x + 7>>, a, 32) IN Turn(p, 32 - a, 32) = <<x * 1000, x + 7>>
(* search tree of three nodes (3, its children 1 and 5): every tree that is done ended at one of four places *)
TreeDone == LET s == FillTree(v, 100, 4, 8) IN SumOf([i \in 1..17 |-> s[4][i - 1]]) = s[3] /\ SumOf([i \in 1..4 |-> s[5][i - 1]]) = s[3]
TreeUses == LET s == FillTree(v, 100, 4, 8) IN SumOf([i \in 1..17 |-> i * s[4][i - 1]]) + s[2] = Len(v)
TreeSorted == LET t == FillTree(v, 100, 4, 8)[1] IN
   t[3] # 0 => (t[1] # 0 => (IF Bad THEN t[1] < t[3] ELSE t[1] <= t[3])) /\ (t[5] # 0 => t[5] > t[3])
BitDone == LET s == BitTree(v, 100, 4, 8) IN SumOf([i \in 1..9 |-> s[6][i - 1]]) = s[5] /\ SumOf([i \in 1..4 |-> s[7][i - 1]]) = s[5]
Marked == LET s == BitTree(v, 100, 4, 8) IN s[5] = 0 => Cardinality({i \in 0..7 : s[1][i]}) = s[4]
(* overlapping sums: the recurrence is the definition *)
SumsAre == Len(v) \in {3, 5} => LET m == (Len(v) + 1) \div 2 y == [t \in 1..m |-> SumOf(SubSeq(v, t, t + m - 1))] IN
   OverlappingSums(v, m, y) /\ \A t \in 1..m : ~ OverlappingSums(v, m, [y EXCEPT ![t] = @ + 1])
(* transform of 2 and 4 values: the table's waves *)
C4 == <<10000, 9239, 7071, 3827, 0>>
Waves == \A a \in 0..32 : Cos(C4, 4, a) = Cos(C4, 4, 16 - (a % 16)) /\ Cos(C4, 4, a + 8) = -Cos(C4, 4, a) /\ Abs(Cos(C4, 4, a)) <= 10000
(* spacings *)
RepeatsAre == Repeated(v) = Cardinality({x \in {Spacings(v)[i] : i \in 1..Len(v)} : Cardinality({i \in 1..Len(v) : Spacings(v)[i] = x}) > 1})
=============================================================================
