------------------------------- MODULE TRank -------------------------------
(* The real code's rank of matrices; rows are lists of the columns set.          *)
EXTENDS Rank, Cases
Ok(c) == c.r = Rank([i \in 1..c.m |-> {c.rows[i][j] : j \in 1..Len(c.rows[i])}])
CaseOk == k = 0 \/ Ok(Data[k])
=============================================================================
