------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* What the ordering, spacing and game tests count (C24).  Outputs of a generator  *)
(* are integers; 32-bit ones are shifted by -2^31, which keeps their order.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Sorted(v) == SortSeq(v, <)
Expand(h) == FlattenSeq([i \in 1..Len(h) |-> [j \in 1..h[i][2] |-> h[i][1]]])
IsTally(h, v) == Expand(h) = Sorted(v)           \* h = <<value, count>> pairs, ascending
Min2(a, b) == IF a < b THEN a ELSE b

(* birthdays: spacings (the first one from 0); values that occur more than once, each counted once *)
Spacings(v) == LET s == Sorted(v) IN [i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE s[i] - s[i - 1]]
Repeated(v) == LET d == Sorted(Spacings(v)) n == Len(d) IN
               Cardinality({i \in 1..n - 1 : d[i] = d[i + 1] /\ (i = 1 \/ d[i - 1] # d[i])})
(* the loop of the code (a known finding): a value that follows a repeated one is not looked at *)
RECURSIVE Skipping(_, _)
Past(d, i) == IF \E j \in i + 1..Len(d) : d[j] # d[i] THEN CHOOSE j \in i + 1..Len(d) : d[j] # d[i] /\ \A l \in i..j - 1 : d[l] = d[i] ELSE Len(d) + 1
Skipping(d, i) == IF i >= Len(d) THEN 0 ELSE IF d[i] # d[i + 1] THEN Skipping(d, i + 1) ELSE 1 + Skipping(d, Past(d, i) + 1)

(* runs: lengths of the runs up and down, six and more together.  A run ends with the first step    *)
(* the other way (no step up counts as a step down); one more step compares the last with the first *)
Step(a, up) ==  \* a = <<current run up, current run down, ends of runs up, of runs down>>
  IF up THEN <<Min2(a[1] + 1, 6), 1, a[3], [a[4] EXCEPT ![a[2]] = @ + 1]>>
        ELSE <<1, Min2(a[2] + 1, 6), [a[3] EXCEPT ![a[1]] = @ + 1], a[4]>>
Ups(v) == [i \in 1..Len(v) |-> IF i < Len(v) THEN v[i + 1] > v[i] ELSE v[i] > v[1]]
None == [i \in 1..6 |-> 0]
RunsOf(v) == LET a == FoldLeft(Step, <<1, 1, None, None>>, Ups(v)) IN <<a[3], a[4]>>

(* permutations: the order of k values, as the digits of their ranks *)
Rank(v, i) == Cardinality({j \in 1..Len(v) : v[j] < v[i]})
Order(v) == FoldLeft(LAMBDA a, i : 10 * a + Rank(v, i), 0, [i \in 1..Len(v) |-> i])
Orders(v, k, T) == [t \in 1..T |-> Order(SubSeq(v, k * (t - 1) + 1, k * t))]

(* lagged sums: every (lag+1)-th value; 16-bit halves are summed apart *)
Add(a, b) == a + b
SumOf(s) == FoldLeft(Add, 0, s)
Every(v, lag, T) == [t \in 1..T |-> v[(lag + 1) * t]]

(* craps *)
T32 == <<-1431655766, -715827884, -2, 715827880, 1431655762, 2147483644>>       \* multiples of (2^32-1) div 6, shifted
Die(x, w) == IF w = 32 THEN Cardinality({i \in 1..6 : x >= T32[i]}) ELSE x \div ((2 ^ (w - 1) - 1 + 2 ^ (w - 1)) \div 6)
Dice(v, w) == SelectSeq([i \in 1..Len(v) |-> 1 + Die(v[i], w)], LAMBDA d : d <= 6)
Pairs(d) == [i \in 1..(Len(d) \div 2) |-> d[2 * i - 1] + d[2 * i]]
(* a = <<games over, point (0: a new game), throws so far, wins, games by throws (21 and more together)>> *)
End(a, win) == <<a[1] + 1, 0, 0, a[4] + (IF win THEN 1 ELSE 0), [a[5] EXCEPT ![Min2(a[3] + 1, 21)] = @ + 1]>>
Throw(a, s, T) == IF a[1] = T THEN a
  ELSE IF a[2] = 0 THEN IF s \in {7, 11} THEN End(a, TRUE) ELSE IF s \in {2, 3, 12} THEN End(a, FALSE) ELSE <<a[1], s, 1, a[4], a[5]>>
  ELSE IF s = 7 THEN End(a, FALSE) ELSE IF s = a[2] THEN End(a, TRUE) ELSE [a EXCEPT ![3] = Min2(@ + 1, 20)]
Craps(v, w, T) == FoldLeft(LAMBDA a, s : Throw(a, s, T), <<0, 0, 0, 0, [i \in 1..21 |-> 0]>>, Pairs(Dice(v, w)))

(* squeeze: k becomes the ceiling of k*m/2^w (w <= 15), from 2^31-1 to 1, in at most 48 steps; 6 and fewer together *)
Squeezed(k, m, w) == LET h == k \div 65536 l == k % 65536 IN h * m * 2 ^ (16 - w) + (l * m + (2 ^ w - 1)) \div 2 ^ w
Big == 2147483647
SqueezeStep(a, m, w) == LET k == Squeezed(a[1], m, w) j == a[2] + 1 IN
   IF k = 1 \/ j = 48 THEN <<Big, 0, Append(a[3], IF j < 6 THEN 6 ELSE j)>> ELSE <<k, j, a[3]>>
Squeezes(v, w, T) == FoldLeft(LAMBDA a, m : IF Len(a[3]) = T THEN a ELSE SqueezeStep(a, m, w), <<Big, 0, <<>>>>, v)[3]

(* gcd of unsigned 32-bit numbers given as signed ones, and the steps Euclid takes *)
Neg(x) == x < 0                                   \* 2^31 and more
Least == -2147483647 - 1
AddMod(a, b, m) == IF a >= m - b THEN a - (m - b) ELSE a + b
Mod(u, v) == IF Neg(v) THEN (IF Neg(u) /\ u >= v THEN u - v ELSE u)
             ELSE IF ~Neg(u) THEN u % v
             ELSE LET h == ((Big % v) + 1) % v IN AddMod((u - Least) % v, h, v)
RECURSIVE Euclid(_, _, _)
Euclid(u, v, k) == IF v = 0 THEN <<u, k>> ELSE Euclid(v, Mod(u, v), k + 1)
Gcds(v, T) == LET nz == SelectSeq(v, LAMBDA x : x # 0) IN [t \in 1..T |-> Euclid(nz[2 * t - 1], nz[2 * t], 0)]
=============================================================================
