------------------------------- MODULE Binned -------------------------------
(***************************************************************************)
(* Binned counts (C21): which cells enter the chi-square sum, and with how        *)
(* many degrees of freedom.  A cell is <<observed, expected>>.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Col(cells, i) == [j \in 1..Len(cells) |-> cells[j][i]]
Total(cells) == <<SumOf(Col(cells, 1)), SumOf(Col(cells, 2))>>
(* cells expected to hold fewer than the cutoff are pooled into one *)
Strong(cells, cut) == SelectSeq(cells, LAMBDA c : c[2] >= cut)
Weak(cells, cut) == SelectSeq(cells, LAMBDA c : c[2] < cut)
Pooled(cells, cut) == IF Weak(cells, cut) = <<>> THEN <<>> ELSE <<Total(Weak(cells, cut))>>
(* the pooled cell counts when it reaches the cutoff itself *)
Used(cells, cut) == Strong(cells, cut) \o SelectSeq(Pooled(cells, cut), LAMBDA c : c[2] >= cut)
Ndof(cells, cut, imposed) == IF imposed > 0 THEN imposed ELSE Len(Used(cells, cut)) - 1
(* binomial tallies: only cells that hold more than ten observations *)
UsedBinomial(obs) == {n \in 1..Len(obs) : obs[n] > 10}
(* Pearson's sum in units of 1/L, for expectations that divide L *)
Chi(cells, L) == SumOf([j \in 1..Len(cells) |-> (cells[j][1] - cells[j][2]) * (cells[j][1] - cells[j][2]) * (L \div cells[j][2])])
=============================================================================
