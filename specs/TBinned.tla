------------------------------ MODULE TBinned ------------------------------
(* Evaluations by the real code.  Probabilities are in units of 1e-9, chi-square   *)
(* sums in 1e-6; reference sums and probabilities are those of the cells and        *)
(* degrees of freedom named in the record, which must be the specification's.        *)
EXTENDS Binned, GenRange, Cases
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Bag(s) == [e \in {s[j] : j \in 1..Len(s)} |-> Cardinality({j \in 1..Len(s) : s[j] = e})]
Prob(c) == UnitInterval(c.bits) /\ Near(c.p, c.q, 200)
Vec(c) == LET cells == [j \in 1..Len(c.x) |-> <<c.x[j], c.y[j]>>] IN
          /\ Bag(c.used) = Bag(Used(cells, c.cut))
          /\ c.ndof = Ndof(cells, c.cut, c.imposed) /\ c.gotndof = c.ndof
          /\ Near(c.chi, c.chiref, 2 + c.chiref \div 1000000)
          /\ c.L > 0 => c.exact = Chi(c.used, c.L)
          /\ Prob(c)
Single(c) == c.z * c.sigma = (c.y - c.x) * 1000 /\ Prob(c)
Pearson(c) == c.df = Len(c.x) - 1 /\ c.used = [j \in 1..Len(c.x) |-> <<c.x[j], c.y[j]>>] /\ Prob(c)
Binomial(c) == {c.cells[j] + 1 : j \in 1..Len(c.cells)} = UsedBinomial(c.x) /\ c.df = Len(c.cells) - 1 /\ Prob(c)
AllCells(c) == c.df = Len(c.x) - 1 /\ Prob(c)
Ok(c) == CASE c.f = "vtest" -> Vec(c) [] c.f = "xtest" -> Single(c) [] c.f = "pearson" -> Pearson(c)
           [] c.f = "binomial" -> Binomial(c) [] OTHER -> AllCells(c)
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
