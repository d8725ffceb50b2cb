------------------------------ MODULE TMissing ------------------------------
(* p-values of the missing-word and matrix tests on recorded streams (C23).        *)
EXTENDS Missing, Rank, GenRange, Cases
Abs(x) == IF x < 0 THEN -x ELSE x
Prob(c) == UnitInterval(c.bits[1]) /\ Abs(c.p[1] - c.q[1]) <= 500
Row(w, n) == {i \in 1..n : Field(w, i - 1, 1) = 1}       \* the n rightmost bits
Matrix(s, rows, cols, t) == [i \in 1..rows |-> Row(s[rows * t + i], cols)]
Max(a, b) == IF a > b THEN a ELSE b
(* how many of T matrices have each rank, those of low rank together *)
Ranks(s, rows, cols, T, low) == [t \in 0..T - 1 |-> Max(low, Rank(Matrix(s, rows, cols, t)))]
RankTally(c, rows, cols, low) ==
  LET r == Ranks(c.s, rows, cols, c.T, low) R == {<<t, r[t]>> : t \in 0..c.T - 1} IN
  /\ Len(c.s) >= rows * c.T
  /\ c.h = [i \in 1..rows - low + 1 |-> Cardinality({x \in R : x[2] = low + i - 1})]
Missed(c, Word(_, _)) == c.missing = All - Len(c.u) /\ LET V(t) == Word(c.s, t) IN Lists(V, c.T, c.u, c.pos, c.idx)
Ok(c) == /\ Prob(c)
         /\ CASE c.f = "bitstream" -> Missed(c, BitstreamWord)
              [] c.f = "opso" -> Missed(c, OpsoWord)
              [] c.f = "oqso" -> Missed(c, OqsoWord)
              [] c.f = "dna" -> Missed(c, DnaWord)
              [] c.f = "rank32" -> RankTally(c, 32, 32, 29)
              [] c.f = "rank6" -> RankTally(c, 6, 8, 2)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
