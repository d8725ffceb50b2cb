------------------------------ MODULE TShapes ------------------------------
(* p-values of the real tests on recorded streams.  Every record names what its     *)
(* reference p-values q were computed from; it must be so of the stream.            *)
EXTENDS Shapes, GenRange, Cases
Prob(c) == /\ Len(c.p) = Len(c.q) /\ \A i \in 1..Len(c.p) : UnitInterval(c.bits[i]) /\ Abs(c.p[i] - c.q[i]) <= c.tol
Operm(c) == /\ Len(c.s) = (IF c.overlap THEN c.T + 4 ELSE 5 * c.T + 5)
            /\ \A t \in 1..Len(c.s) - 4 : \A i, j \in 0..4 : i < j => c.s[t + i] # c.s[t + j]     \* no ties
            /\ LET f == Histogram(Orders(c.s, c.T, c.overlap), 3124) IN
               /\ \A i \in 1..Len(c.h) : f[c.h[i][1]] = c.h[i][2] /\ (i > 1 => c.h[i][1] > c.h[i - 1][1])
               /\ SumOf([i \in 1..Len(c.h) |-> c.h[i][2]]) = c.T
Sphere(c) == LET v == Positive(c.s) IN
             /\ Len(v) = c.d * c.n
             /\ Certified(TLCEval(Points(v, c.d, c.n)), c.m, c.r, c.o, c.u, c.hi, c.pair)
Parking(c) == Len(c.s) = 24000 /\ Parked(TLCEval(Points(c.s, 2, 12000)), c.G) = c.k
Sums(c) == Len(c.s) = 2 * c.T - 1 /\ OverlappingSums(c.s, c.T, c.y)
(* windows win (turned, as they enter the transform), seq: the window of every sample; raw: how sample j was drawn *)
Dct(c) == /\ Len(c.seq) = c.T
          /\ Len(c.pos) = Len(c.win)
          /\ \A i \in 1..Len(c.win) : Len(c.win[i]) = c.len /\
                LET d == TLCEval([j \in 1..c.len |-> Deviation(c.win[i][j], c.w)]) IN IsPeak(c.C, c.len, d, c.pos[i], c.w <= 12)
          /\ Agrees(c.h, Histogram([j \in 1..c.T |-> c.pos[c.seq[j]]], c.len - 1))
          /\ \A r \in 1..Len(c.raw) : LET x == c.raw[r] IN      \* x = <<sample, outputs>>
                [j \in 1..c.len |-> Turn(x[2][j], DctTurn(x[1], c.T, c.w), c.w)] = c.win[c.seq[x[1] + 1]]
DctAll(c) == /\ Len(c.s) = c.T * c.len
             /\ \A t \in 0..c.T - 1 : LET d == TLCEval([j \in 1..c.len |-> Deviation(Turn(c.s[t * c.len + j], DctTurn(t, c.T, c.w), c.w), c.w)])
                                          big == TLCEval([j \in 1..c.len |-> <<j - 1, d[j]>>]) IN
                  \A i \in 0..c.len - 1 : Abs(Coef(c.C, c.len, big, i) - c.x[t * c.len + i + 1]) <= c.len * 24096
Tree(c) == LET s == FillTree(c.s, c.T, c.w, 32) IN s[3] = c.T /\ Agrees(c.h, s[4]) /\ Agrees(c.h2, s[5])
Tree2(c) == LET s == BitTree(c.s, c.T, c.w, 128) IN s[5] = c.T /\ Agrees(c.h, s[6]) /\ Agrees(c.h2, s[7])
Bday(c) == /\ Len(c.s) = c.T * c.n
           /\ LET r == [t \in 1..c.T |-> LET m == Repeated(SubSeq(c.s, c.n * (t - 1) + 1, c.n * t)) IN IF m < Len(c.h) THEN m ELSE Len(c.h)] IN
              LET f == Histogram(r, Len(c.h)) IN \A i \in 1..Len(c.h) : c.h[i] = f[i - 1]
Ok(c) == /\ Prob(c)
         /\ CASE c.f = "operm" -> Operm(c) [] c.f = "sphere" -> Sphere(c) [] c.f = "parking" -> Parking(c) [] c.f = "sums" -> Sums(c)
              [] c.f = "dct" -> Dct(c) [] c.f = "dctall" -> DctAll(c) [] c.f = "tree" -> Tree(c) [] c.f = "tree2" -> Tree2(c) [] c.f = "bday" -> Bday(c)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
