------------------------------- MODULE Rank -------------------------------
(***************************************************************************)
(* Rank over GF(2) (C19, used by C23).  A row is the set of the columns that      *)
(* hold a 1; adding two rows is the symmetric difference.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Plus(a, b) == (a \ b) \cup (b \ a)
(* the size of the space the rows span, as the definition has it *)
RECURSIVE Span(_)
Span(rows) == IF rows = <<>> THEN {{}} ELSE LET S == Span(Tail(rows)) IN S \cup {Plus(Head(rows), v) : v \in S}
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RankOf(rows) == Log2(Cardinality(Span(rows)))
(* the same by elimination: a nonzero first row clears its leading column elsewhere *)
RECURSIVE Rank(_)
Rank(rows) == IF rows = <<>> THEN 0
  ELSE LET h == Head(rows) IN
       IF h = {} THEN Rank(Tail(rows))
       ELSE LET c == CHOOSE x \in h : TRUE IN
            1 + Rank([i \in 1..Len(rows) - 1 |-> IF c \in rows[i + 1] THEN Plus(rows[i + 1], h) ELSE rows[i + 1]])
=============================================================================
