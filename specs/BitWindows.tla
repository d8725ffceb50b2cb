----------------------------- MODULE BitWindows -----------------------------
(***************************************************************************)
(* Which bits the window, tuple and rotation primitives select (C02).        *)
(* A word is a sequence of U bits, least significant first; "from the left"  *)
(* position p of a word is element U - p.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANT U
L(x, p) == x[U - p]                        \* bit p from the left, p in 0..U-1
FromLeft(f(_)) == [i \in 1..U |-> f(U - i)]   \* word from its left-to-right bits

Umask(a, b) == FromLeft(LAMBDA p : IF a <= p /\ p <= b THEN 1 ELSE 0)
Window(x, a, b, o) == FromLeft(LAMBDA p : IF o <= p /\ p <= o + (b - a) THEN L(x, a + p - o) ELSE 0)
RotR(x, s) == [i \in 1..U |-> x[((i - 1 + s) % U) + 1]]
RotL(x, s) == [i \in 1..U |-> x[((i - 1 + U - s) % U) + 1]]
Low(x, n) == [i \in 1..U |-> IF i <= n THEN x[i] ELSE 0]
(* rotate the n low bits right by one, clear the others *)
Cycle1(x, n) == [i \in 1..U |-> IF i > n THEN 0 ELSE x[(i % n) + 1]]

(* words in[1..k] as one left-to-right cyclic string: bit at position p *)
Str(in, p) == LET q == p % (U * Len(in)) IN L(in[(q \div U) + 1], q % U)
(* n bits from offset off, right aligned in j words (LSB-first bits of the j-word number) *)
Cyc(in, n, off) == [i \in 1..n |-> Str(in, off + n - i)]
Num(words) ==   \* j words, most significant first, as LSB-first bits
  LET j == Len(words) IN [i \in 1..(j * U) |-> words[j - ((i - 1) \div U)][((i - 1) % U) + 1]]
CycOk(in, n, off, out) ==
  LET v == Num(out) c == Cyc(in, n, off) IN \A i \in DOMAIN v : v[i] = (IF i <= n THEN c[i] ELSE 0)

(* only the w low bits of each word are valid; the string runs from the least
   significant bit of the LAST word towards the first word, cyclically *)
RStr(in, w, p) == LET q == p % (w * Len(in)) IN in[Len(in) - (q \div w)][(q % w) + 1]
NTuple(in, w, n, off) == [i \in 1..U |-> IF i <= n THEN RStr(in, w, off + i - 1) ELSE 0]
(* n-th valid bit, words in order, most significant valid bit first *)
GetBit(in, w, n) == in[(n \div w) + 1][w - (n % w)]
(* a character string of bits, most significant first *)
BitString(s) == [i \in 1..U |-> IF i <= Len(s) THEN s[Len(s) + 1 - i] ELSE 0]
=============================================================================
