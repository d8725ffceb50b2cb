------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* What the overlapping-order, geometric, transform and tree tests evaluate (C26). *)
(* Outputs of a generator are integers below 2^w; 32-bit ones are <<hi, lo>> pairs  *)
(* of 16-bit halves.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Add(a, b) == a + b
SumOf(s) == FoldLeft(Add, 0, s)
Plus(f, x) == [f EXCEPT ![x] = @ + 1]
Empty(n) == TLCEval([x \in 0..n |-> 0])
Histogram(v, n) == FoldLeft(Plus, Empty(n), v)
Agrees(h, f) == Len(h) = Cardinality(DOMAIN f) /\ \A i \in 1..Len(h) : h[i] = f[i - 1]
Sorted(v) == SortSeq(v, <)

(* ------------------------------------------------ orders of five successive outputs *)
Rank5(v, t, i) == Cardinality({j \in 0..4 : v[t + j] < v[t + i]})
Order5(v, t) == 625 * Rank5(v, t, 0) + 125 * Rank5(v, t, 1) + 25 * Rank5(v, t, 2) + 5 * Rank5(v, t, 3) + Rank5(v, t, 4)
Starts(T, overlap) == [t \in 1..T |-> IF overlap THEN t ELSE 5 * t + 1]    \* apart: the first five are not used
Orders(v, T, overlap) == LET s == Starts(T, overlap) IN [t \in 1..T |-> Order5(v, s[t])]

(* ------------------------------------------------ the closest pair of points *)
Positive(v) == SelectSeq(v, LAMBDA x : x > 0)
Points(v, d, n) == [i \in 1..n |-> SubSeq(v, d * (i - 1) + 1, d * i)]
Within(a, b, r) == \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= r
Dist2(a, b) == SumOf([k \in 1..Len(a) |-> (a[k] - b[k]) * (a[k] - b[k])])
Closer(a, b, m, r) == Within(a, b, r) /\ Dist2(a, b) < m
(* m is the least squared distance: some pair has it, none is closer *)
IsLeast(p, m, r) == r * r >= m /\ (\E i, j \in 1..Len(p) : i < j /\ Within(p[i], p[j], r) /\ Dist2(p[i], p[j]) = m)
                    /\ ~ \E i, j \in 1..Len(p) : i < j /\ Closer(p[i], p[j], m, r)
(* the same with a certificate: o lists the points by first coordinate (u is its inverse), pair is one at that *)
(* distance and behind hi[i] first coordinates are more than r away                                            *)
Certified(p, m, r, o, u, hi, pair) ==
  LET n == Len(p) q == TLCEval([i \in 1..n |-> p[o[i]]]) IN
  /\ r * r >= m /\ Len(o) = n /\ Len(u) = n /\ Len(hi) = n
  /\ \A i \in 1..n : o[u[i]] = i /\ u[o[i]] = i
  /\ \A i \in 1..n - 1 : q[i][1] <= q[i + 1][1]
  /\ pair[1] # pair[2] /\ Within(p[pair[1]], p[pair[2]], r) /\ Dist2(p[pair[1]], p[pair[2]]) = m
  /\ \A i \in 1..n : /\ hi[i] \in i..n /\ (hi[i] < n => q[hi[i] + 1][1] - q[i][1] > r)
                     /\ \A j \in i + 1..hi[i] : ~ Closer(q[i], q[j], m, r)

(* ------------------------------------------------ parking: cars of side 1 on a 100 x 100 lot, G grid steps *)
Crash(a, b, G) == 100 * Abs(a[1] - b[1]) <= G /\ 100 * Abs(a[2] - b[2]) <= G
(* as many as park, one after the other *)
Park(p, G) == FoldLeft(LAMBDA s, c : IF \E i \in 1..Len(s) : Crash(s[i], c, G) THEN s ELSE Append(s, c), <<>>, p)
(* the same with a grid of unit cells: two cars in one cell would have crashed, cars two cells apart have not *)
Cell(x, G) == (100 * x) \div G
Free == TLCEval([i \in -1..100 |-> [j \in -1..100 |-> <<>>]])
ParkStep(s, c, G) == LET i == Cell(c[1], G) j == Cell(c[2], G) IN
   IF \E a \in i - 1..i + 1, b \in j - 1..j + 1 : s[1][a][b] # <<>> /\ Crash(s[1][a][b], c, G) THEN s
   ELSE <<[s[1] EXCEPT ![i][j] = c], s[2] + 1>>
Parked(p, G) == FoldLeft(LAMBDA s, c : ParkStep(s, c, G), <<Free, 0>>, p)[2]

(* ------------------------------------------------ overlapping sums of m values *)
OverlappingSums(v, m, y) == /\ Len(y) = m /\ y[1] = SumOf(SubSeq(v, 1, m))
                            /\ \A t \in 1..m - 1 : y[t + 1] = (y[t] - v[t]) + v[t + m]

(* ------------------------------------------------ rotation *)
RotL(x, n, w) == LET k == n % w IN ((x % 2 ^ (w - k)) * 2 ^ k) + (x \div 2 ^ (w - k))
(* of a <<hi, lo>> pair by at most 16 *)
RotL32(x, n) == LET h == 2 ^ n r == 2 ^ (16 - n) IN <<((x[1] % r) * h) + (x[2] \div r), ((x[2] % r) * h) + (x[1] \div r)>>
Turn(x, n, w) == IF w < 32 THEN RotL(x, n, w)
                 ELSE LET k == n % 32 IN IF k <= 16 THEN RotL32(x, k) ELSE RotL32(RotL32(x, 16), k - 16)
Quarter(T) == IF T < 4 THEN 1 ELSE T \div 4

(* ------------------------------------------------ cosine transform of windows of len outputs *)
(* a window is given by its twelve leading bits: twice the deviation from the middle *)
Top(x, w) == IF w = 32 THEN x[1] \div 16 ELSE IF w >= 12 THEN x \div 2 ^ (w - 12) ELSE x * 2 ^ (12 - w)
Deviation(x, w) == 2 * Top(x, w) - (IF w < 12 THEN 4096 - 2 ^ (12 - w) ELSE 4095)
(* cos(pi * k * (2j+1) / (2 len)) in 1/10000, from the quarter wave of 4 len steps: C[i] = cos(pi i / (2 len)) *)
Cos(C, len, a) == LET b == a % (4 * len) IN
   IF b <= len THEN C[b + 1] ELSE IF b <= 2 * len THEN -C[2 * len - b + 1] ELSE IF b <= 3 * len THEN -C[b - 2 * len + 1] ELSE C[4 * len - b + 1]
Large(d) == SelectSeq([j \in 1..Len(d) |-> <<j - 1, d[j]>>], LAMBDA x : Abs(x[2]) > 4)
Coef(C, len, big, k) == SumOf([i \in 1..Len(big) |-> big[i][2] * Cos(C, len, k * (2 * big[i][1] + 1))])
(* what the rounding of the values, of the table and the small deviations may add up to *)
Slack(d, exactTop) == LET big == Large(d) IN
   10000 * SumOf([j \in 1..Len(d) |-> IF Abs(d[j]) > 4 THEN 0 ELSE Abs(d[j])]) + SumOf([i \in 1..Len(big) |-> Abs(big[i][2])])
   + (IF exactTop THEN 0 ELSE 20000 * Len(d))
(* the magnitude that is compared: the constant part counts 1/sqrt(2) *)
Magnitude(C, len, big, k) == IF k = 0 THEN (Abs(Coef(C, len, big, 0)) \div 10000) * 7071 ELSE Abs(Coef(C, len, big, k))
IsPeak(C, len, d, k, exactTop) ==
   LET big == TLCEval(Large(d)) e == Slack(d, exactTop) + 100000 m == Magnitude(C, len, big, k) IN
   \A j \in 0..len - 1 : j # k => Magnitude(C, len, big, j) + e < m - e
(* the turn of sample j = 0, 1, ..: a quarter of the word for every quarter of the samples *)
DctTurn(j, T, w) == (w \div 4) * (j \div Quarter(T))

(* ------------------------------------------------ filling a search tree: the middle of size nodes, then steps of size/4, .., 2, 1 *)
Value(x, w) == IF w = 32 THEN (x[1] - 32768) * 65536 + x[2] ELSE x
Zero(w) == IF w = 32 THEN (-32768) * 65536 ELSE 0
(* where x goes: -1 if it was put at an empty node, else the node below the last level; 0 does not fill a node *)
RECURSIVE Descend(_, _, _, _, _)
Descend(tree, x, i, d, z) == IF d = 0 THEN <<tree, i>>
   ELSE IF tree[i] = z THEN <<[tree EXCEPT ![i] = x], -1>>
   ELSE Descend(tree, x, IF tree[i] < x THEN i + d ELSE i - d, d \div 2, z)
(* s = <<tree, values used, trees done, counts, positions>> *)
TreeStep(s, x, T, w, size) == IF s[3] = T THEN s ELSE
   LET turned == IF s[3] = 0 THEN 0 ELSE ((s[3] - 1) \div Quarter(T)) + 1
       z == Zero(w)
       r == Descend(s[1], Value(Turn(x, turned, w), w), (size \div 2) - 1, size \div 4, z) IN
   IF r[2] = -1 THEN <<r[1], s[2] + 1, s[3], s[4], s[5]>>
   ELSE <<TLCEval([i \in 0..size - 1 |-> z]), 0, s[3] + 1, Plus(s[4], s[2]), Plus(s[5], r[2] \div 2)>>
FillTree(v, T, w, size) ==
   FoldLeft(LAMBDA s, x : TreeStep(s, x, T, w, size), <<TLCEval([i \in 0..size - 1 |-> Zero(w)]), 0, 0, Empty(2 * size), Empty((size \div 2) - 1)>>, v)

(* ------------------------------------------------ the same with single bits, least significant first *)
(* s = <<marked, node, step, markers placed, trees done, counts, positions>> *)
BitStep(s, b, T, size) == IF s[5] = T THEN s ELSE
   LET i == IF b = 1 THEN s[2] + s[3] ELSE s[2] - s[3] d == s[3] \div 2 IN
   IF ~ s[1][i] THEN <<[s[1] EXCEPT ![i] = TRUE], (size \div 2) - 1, size \div 4, s[4] + 1, s[5], s[6], s[7]>>
   ELSE IF d > 0 THEN <<s[1], i, d, s[4], s[5], s[6], s[7]>>
   ELSE <<TLCEval([x \in 0..size - 1 |-> FALSE]), (size \div 2) - 1, size \div 4, 0, s[5] + 1, Plus(s[6], s[4]), Plus(s[7], i \div 2)>>
BitsOf(x, w) == IF w = 32 THEN [i \in 1..32 |-> IF i <= 16 THEN (x[2] \div 2 ^ (i - 1)) % 2 ELSE (x[1] \div 2 ^ (i - 17)) % 2]
                ELSE [i \in 1..w |-> (x \div 2 ^ (i - 1)) % 2]
BitTree(v, T, w, size) ==
   FoldLeft(LAMBDA s, x : FoldLeft(LAMBDA a, b : BitStep(a, b, T, size), s, BitsOf(x, w)),
            <<TLCEval([x \in 0..size - 1 |-> FALSE]), (size \div 2) - 1, size \div 4, 0, 0, Empty(size), Empty((size \div 2) - 1)>>, v)

(* ------------------------------------------------ repeated spacings *)
Spacings(v) == LET s == Sorted(v) IN TLCEval([i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE s[i] - s[i - 1]])
Repeated(v) == LET d == Sorted(Spacings(v)) n == Len(d) IN
               Cardinality({i \in 1..n - 1 : d[i] = d[i + 1] /\ (i = 1 \/ d[i - 1] # d[i])})
=============================================================================
