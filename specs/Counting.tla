------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* What the bit-counting tests count (C22).  A stream is a sequence of words, a   *)
(* word is <<b3, b2, b1, b0>>, its bytes from the most significant one.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Add(a, b) == a + b
SumOf(s) == FoldLeft(Add, 0, s)
Ones8 == [v \in 0..255 |-> SumOf([i \in 1..8 |-> (v \div 2 ^ (i - 1)) % 2])]
Ones(w) == Ones8[w[1]] + Ones8[w[2]] + Ones8[w[3]] + Ones8[w[4]]
TotalOnes(ws) == SumOf([i \in 1..Len(ws) |-> Ones(ws[i])])

(* tallies: values in ascending order; the sum of the squares of the multiplicities *)
Sorted(v) == SortSeq(v, <)
SumSquares(v) == FoldLeft(LAMBDA a, x : IF x = a[1] THEN <<x, a[2] + 1, a[3] + 2 * a[2] + 1>> ELSE <<x, 1, a[3] + 1>>, <<-1, 0, 0>>, Sorted(v))[3]
(* h = <<value, count>> pairs in ascending order, none empty *)
Expand(h) == FlattenSeq([i \in 1..Len(h) |-> [j \in 1..h[i][2] |-> h[i][1]]])
IsTally(h, v) == Expand(h) = Sorted(v)
(* the same for long sequences of numbers from 0 to n, counted one by one *)
Empty(n) == TLCEval([x \in 0..n |-> 0])
Plus(f, x) == [f EXCEPT ![x] = @ + 1]
Histogram(v, n) == FoldLeft(Plus, Empty(n), v)
Agrees(h, f) == /\ \A i \in 1..Len(h) : f[h[i][1]] = h[i][2] /\ h[i][2] > 0 /\ (i > 1 => h[i][1] > h[i - 1][1])
                /\ SumOf([i \in 1..Len(h) |-> h[i][2]]) = SumOf([i \in 1..Cardinality(DOMAIN f) |-> f[i - 1]])

(* bits of the n-bit words of a stream, most significant first *)
BitOf(w, i) == (w[4 - (i \div 8)] \div 2 ^ (i % 8)) % 2            \* i counted from the least significant
BitSeq(ws, n) == [k \in 1..Len(ws) * n |-> BitOf(ws[((k - 1) \div n) + 1], n - 1 - ((k - 1) % n))]
(* cyclic pairs of bits that differ *)
Changes(bits) == LET L == Len(bits) IN Cardinality({k \in 1..L : bits[k] # bits[(k % L) + 1]})

(* the m-bit numbers at every position of a cyclic bit string *)
RECURSIVE Num(_, _, _)
Num(bits, k, m) == IF m = 0 THEN 0 ELSE 2 * Num(bits, k, m - 1) + bits[((k + m - 2) % Len(bits)) + 1]
Tuples(bits, m) == [k \in 1..Len(bits) |-> Num(bits, k, m)]
(* from the tuples of m-1 bits to those of m bits: append one more bit *)
Longer(t, bits, m) == [k \in 1..Len(bits) |-> 2 * t[k] + bits[((k + m - 2) % Len(bits)) + 1]]
RECURSIVE Squares(_, _, _, _)
Squares(t, bits, m, max) == IF m > max THEN <<>> ELSE LET u == Longer(t, bits, m) IN <<SumSquares(u)>> \o Squares(u, bits, m + 1, max)
Serial(bits, max) == Squares([k \in 1..Len(bits) |-> 0], bits, 1, max)

(* consecutive nb-bit numbers, 64 to a sample; how often v occurs in each *)
Numbers(bits, nb, count) == [k \in 1..count |-> Num(bits, (k - 1) * nb + 1, nb)]
Occurrences(nums, v) == [s \in 1..(Len(nums) \div 64) |-> Cardinality({k \in (64 * (s - 1) + 1)..(64 * s) : nums[k] = v})]

(* bytes 0, 12 and 24 bits (for 32-bit words) from the right, of three words to a sample, in nine tables *)
At(w, o) == LET i == o \div 8 s == o % 8 lo == w[4 - i] hi == IF i < 3 THEN w[3 - i] ELSE 0 IN (lo \div 2 ^ s + hi * 2 ^ (8 - s)) % 256
NineTables(ws, n) == [k \in 1..Len(ws) * 3 |->
   LET w == (k - 1) \div 3 j == (k - 1) % 3 IN ((w % 3) * 3 + j) * 256 + At(ws[w + 1], (j * (n - 8)) \div 2)]

(* ones per block, blocks ending with word i (from 0) when bit j of i has just become 1 *)
EndsBlock(i, j) == (i \div 2 ^ j) % 2 = 1 /\ i % 2 ^ j = 0
Blocks(ones, j) == FoldLeft(LAMBDA a, k : LET s == a[1] + ones[k] IN IF EndsBlock(k - 1, j) THEN <<0, Append(a[2], s)>> ELSE <<s, a[2]>>,
                            <<0, <<>>>>, [k \in 1..Len(ones) |-> k])[2]
(* the histogram of Blocks, for long streams *)
BlockHistogram(ones, j) == FoldLeft(LAMBDA a, k : LET s == a[1] + ones[k] IN IF EndsBlock(k - 1, j) THEN <<0, Plus(a[2], s)>> ELSE <<s, a[2]>>,
                                    <<0, Empty(64 * 2 ^ j)>>, [k \in 1..Len(ones) |-> k])[2]

(* letters A to E for 0-2, 3, 4, 5, 6-8 ones in a byte; five-letter words *)
Letter(b) == LET n == Ones8[b] IN IF n <= 2 THEN 0 ELSE IF n >= 6 THEN 4 ELSE n - 2
(* successive bytes of a stream, from the right of every word; overlapping words *)
Letters(ws) == [k \in 1..4 * Len(ws) |-> Letter(ws[((k - 1) \div 4) + 1][4 - ((k - 1) % 4)])]
Word5(ls, k) == (((ls[k] * 5 + ls[k + 1]) * 5 + ls[k + 2]) * 5 + ls[k + 3]) * 5 + ls[k + 4]
Overlapping(ls, T) == [k \in 1..T |-> Word5(ls, k)]
(* one byte of five successive words, at a bit offset that moves by one (of 32) per sample, cyclically *)
Rot(w, o) == LET i == o \div 8 s == o % 8 lo == w[4 - i] hi == w[IF i < 3 THEN 3 - i ELSE 4] IN (lo \div 2 ^ s + hi * 2 ^ (8 - s)) % 256
Separate(ws, T) == [t \in 1..T |-> Word5([k \in 1..5 |-> Letter(Rot(ws[5 * (t - 1) + k], (t - 1) % 32))], 1)]
=============================================================================
