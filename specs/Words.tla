------------------------------- MODULE Words -------------------------------
(* Words of any length as sequences of bytes, least significant byte first.   *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC
Norm(ds) == FoldLeft(LAMBDA a, d : LET t == d + a[2] IN <<Append(a[1], t % 256), t \div 256>>, <<<<>>, 0>>, ds)[1]
Add(a, b) == Norm([i \in 1..Len(a) |-> a[i] + b[i]])
Byte(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Conv(_, _, _, _)
Conv(a, b, m, i) == IF i > m THEN 0 ELSE Byte(a, i) * Byte(b, m + 1 - i) + Conv(a, b, m, i + 1)
(* the low n bytes of the product *)
Mul(a, b, n) == Norm([m \in 1..n |-> Conv(a, b, m, 1)])
WXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
WAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
WNot(a) == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
Low(a, n) == [i \in 1..n |-> Byte(a, i)]
High(a, n) == [i \in 1..n |-> Byte(a, Len(a) - n + i)]
Shl(a, s) == LET q == s \div 8  r == s % 8 IN
  TLCEval([i \in 1..Len(a) |-> ((Byte(a, i - q) * 2 ^ r) % 256) + Byte(a, i - q - 1) \div 2 ^ (8 - r)])
Shr(a, s) == LET q == s \div 8  r == s % 8 IN
  TLCEval([i \in 1..Len(a) |-> Byte(a, i + q) \div 2 ^ r + ((Byte(a, i + q + 1) * 2 ^ (8 - r)) % 256)])
Rotl(a, s) == LET q == s \div 8  r == s % 8  n == Len(a) IN
  TLCEval([i \in 1..n |-> ((a[((i - 1 - q + n) % n) + 1] * 2 ^ r) % 256) + a[((i - 2 - q + 2 * n) % n) + 1] \div 2 ^ (8 - r)])
(* unsigned comparison *)
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i - 1)
Leq(a, b) == ~Less(b, a, Len(a))
Zero(n) == [i \in 1..n |-> 0]
One(n) == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
(* an integer below 2^31 *)
W4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, x \div 16777216>>
IntOf(a) == a[1] + 256 * a[2] + 65536 * a[3] + 16777216 * Byte(a, 4)
(* a 32-bit word modulo m < 2^22 *)
ModSmall(a, m) == FoldRight(LAMBDA d, r : (r * 256 + d) % m, a, 0)
(* a 32-bit word modulo m < 2^30: one bit at a time *)
RECURSIVE ModBits(_, _, _, _)
ModBits(a, m, j, r) == IF j < 0 THEN r ELSE
  LET b == (a[(j \div 8) + 1] \div 2 ^ (j % 8)) % 2
      t == 2 * r + b IN ModBits(a, m, j - 1, IF t >= m THEN t - m ELSE t)
Mod(a, m) == ModBits(a, m, 8 * Len(a) - 1, 0)
=============================================================================
