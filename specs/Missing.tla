------------------------------ MODULE Missing ------------------------------
(***************************************************************************)
(* Words missing from a stream (C23).  A stream is a sequence of 32-bit words,     *)
(* each given as a signed integer; div and % of a power of two then select bits   *)
(* as of the unsigned word.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
(* n bits, `from' counted from the right *)
Field(w, from, n) == IF from = 31 THEN (IF w < 0 THEN 1 ELSE 0) ELSE (w \div 2 ^ from) % 2 ^ n
ByteAt(s, i) == Field(s[(i \div 4) + 1], 24 - 8 * (i % 4), 8)   \* bytes from the left of every word, from 0

(* 20 bits at bit k (from 0) of the stream *)
Window20(s, k) == LET i == k \div 8 o == k % 8 IN
   (ByteAt(s, i) % 2 ^ (8 - o)) * 2 ^ (12 + o) + ByteAt(s, i + 1) * 2 ^ (4 + o) + (ByteAt(s, i + 2) * 256 + ByteAt(s, i + 3)) \div 2 ^ (12 - o)
(* bitstream: T successive windows, from the ninth bit on *)
BitstreamWord(s, t) == Window20(s, t + 8)
(* opso: ten bits of each of two words, twice per pair, from the right *)
OpsoWord(s, t) == LET b == 2 * (t \div 2) o == 10 * (t % 2) IN Field(s[b + 1], o, 10) * 1024 + Field(s[b + 2], o, 10)
(* oqso: five bits of each of four words, six times per four *)
OqsoWord(s, t) == LET b == 4 * (t \div 6) o == 5 * (t % 6) IN
   ((Field(s[b + 1], o, 5) * 32 + Field(s[b + 2], o, 5)) * 32 + Field(s[b + 3], o, 5)) * 32 + Field(s[b + 4], o, 5)
(* dna: two bits of each of ten words, at the 32 (cyclic) offsets; eleven words are skipped first *)
Two(w, o) == IF o < 31 THEN Field(w, o, 2) ELSE Field(w, 31, 1) + 2 * Field(w, 0, 1)
RECURSIVE Dna(_, _, _, _)
Dna(s, b, o, n) == IF n = 0 THEN 0 ELSE 4 * Dna(s, b, o, n - 1) + Two(s[b + n], o)
DnaWord(s, t) == Dna(s, 11 + 10 * (t \div 32), t % 32, 10)
All == 2 ^ 20
(* The set {V(t) : t in 0..T-1} has Len(u) elements: u lists them in ascending     *)
(* order, each occurs at pos, and every t has its entry.  (TLC sorts a million      *)
(* elements too slowly to form the set.)                                            *)
Lists(V(_), T, u, pos, idx) == /\ Len(pos) = Len(u) /\ Len(idx) = T
                               /\ \A i \in 1..Len(u) - 1 : u[i] < u[i + 1]
                               /\ \A i \in 1..Len(u) : pos[i] \in 0..T - 1 /\ V(pos[i]) = u[i]
                               /\ \A t \in 0..T - 1 : V(t) = u[idx[t + 1]]
=============================================================================
