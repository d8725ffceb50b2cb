------------------------------ MODULE TEvents ------------------------------
(* p-values of the ordering, spacing and game tests on recorded streams (C24).    *)
EXTENDS Events, GenRange, Cases
D == INSTANCE Deviation
Abs(x) == IF x < 0 THEN -x ELSE x
Prob(c) == /\ Len(c.p) = Len(c.q) /\ \A i \in 1..Len(c.p) : UnitInterval(c.bits[i]) /\ Abs(c.p[i] - c.q[i]) <= 500
(* numbers of n bits from a stream of 32-bit words, least significant bits first (n = 24), or one per output *)
ByteAt(s, j) == (s[(j \div 4) + 1] \div 2 ^ (8 * (j % 4))) % 256
Number(c, i) == IF c.w = 32 THEN ByteAt(c.s, 3 * i) + 256 * ByteAt(c.s, 3 * i + 1) + 65536 * ByteAt(c.s, 3 * i + 2) ELSE c.s[i + 1]
Year(c, t) == [m \in 1..512 |-> Number(c, 512 * t + m - 1)]
Counts(c) == [t \in 1..c.T |-> IF c.known THEN Skipping(Sorted(Spacings(Year(c, t - 1))), 1) ELSE Repeated(Year(c, t - 1))]
Birthdays(c) == IsTally(c.h, Counts(c))
Runs(c) == Len(c.s) = c.T /\ RunsOf(c.s) = <<c.up, c.down>>
Perms(c) == IsTally(c.h, Orders(c.s, c.k, c.T))
Sums(c) == c.hi = SumOf(Every(c.his, c.lag, c.T)) /\ c.lo = SumOf(Every(c.los, c.lag, c.T))
CrapsOk(c) == LET a == Craps(c.s, c.w, c.T) IN a[1] = c.T /\ a[4] = c.wins /\ a[5] = c.h
SqueezeOk(c) == IsTally(c.h, Squeezes(c.s, c.w, c.T))
GcdOk(c) == LET g == Gcds(c.s, c.T) IN
   /\ IsTally(c.hk, [t \in 1..c.T |-> Min2(g[t][2], 40)])
   /\ IsTally(c.hg, [t \in 1..c.T |-> IF Neg(g[t][1]) THEN c.size - 1 ELSE Min2(g[t][1], c.size - 1)])
KsOk(c) == LET v == SubSeq(SelectSeq(c.s, LAMBDA x : x # 0), 1, c.T) IN c.dev = D!KS(v, c.G)
Ok(c) == /\ Prob(c)
         /\ CASE c.f = "birthdays" -> Birthdays(c) [] c.f = "runs" -> Runs(c) [] c.f = "perms" -> Perms(c)
              [] c.f = "sums" -> Sums(c) [] c.f = "craps" -> CrapsOk(c) [] c.f = "squeeze" -> SqueezeOk(c)
              [] c.f = "gcd" -> GcdOk(c) [] c.f = "ks" -> KsOk(c)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
