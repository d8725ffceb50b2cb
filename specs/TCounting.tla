----------------------------- MODULE TCounting -----------------------------
(* p-values of the real tests on recorded streams.  Every record names the counts  *)
(* its reference p-values q were computed from; they must be those of the stream.   *)
EXTENDS Counting, GenRange, Cases
Abs(x) == IF x < 0 THEN -x ELSE x
Prob(c) == /\ Len(c.p) = Len(c.q) /\ \A i \in 1..Len(c.p) : UnitInterval(c.bits[i]) /\ Abs(c.p[i] - c.q[i]) <= 500
Monobit(c) == c.ones = TotalOnes(c.s) /\ c.n = c.T * c.w
Runs(c) == LET b == BitSeq(c.s, c.w) IN c.n = Len(b) /\ c.n = c.T * c.w /\ c.ones = SumOf(b) /\ c.changes = Changes(b)
SerialOk(c) == LET b == BitSeq(c.s, 32) IN c.n = Len(b) /\ c.n = 32 * c.T /\ c.sq = Serial(b, 16)
Bitdist(c) == LET b == BitSeq(c.s, 32) IN
              /\ Len(b) = 64 * c.nb * c.T
              /\ (c.pick \div (2 ^ (31 - c.nb) + (2 ^ (31 - c.nb) - 1))) = c.v /\ c.v < 2 ^ c.nb
              /\ IsTally(c.h, Occurrences(Numbers(b, c.nb, 64 * c.T), c.v))
Bytes(c) == Len(c.s) = 3 * c.T /\ c.sq = SumSquares(NineTables(c.s, c.w))
Block(c) == LET o == [i \in 1..Len(c.s) |-> Ones(c.s[i])] IN
            Len(c.s) = c.T /\ Len(c.h) = c.nt /\ LET p == TLCEval(o) IN \A j \in 1..c.nt : Agrees(c.h[j], BlockHistogram(p, j - 1))
Count5(c) == LET v == IF c.overlapping THEN Overlapping(Letters(c.s), c.T) ELSE Separate(c.s, c.T) IN
             /\ Len(c.s) = (IF c.overlapping THEN (c.T + 3) \div 4 + 1 ELSE 5 * c.T)
             /\ Agrees(c.h, Histogram(v, 3124))
Ok(c) == /\ Prob(c)
         /\ CASE c.f = "monobit" -> Monobit(c) [] c.f = "runs" -> Runs(c) [] c.f = "serial" -> SerialOk(c)
              [] c.f = "bitdist" -> Bitdist(c) [] c.f = "bytes" -> Bytes(c) [] c.f = "blocks" -> Block(c)
              [] c.f = "count5" -> Count5(c)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
