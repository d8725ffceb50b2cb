----------------------------- MODULE Deviation -----------------------------
(***************************************************************************)
(* The goodness-of-fit statistic of a set of p-values (C20).  The values are      *)
(* multiples of 1/G, a sequence of integers in 0..G; deviations are counted in     *)
(* units of 1/(G*(n+1)) (Kolmogorov-Smirnov) and 1/(G*n) (Kuiper).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Larger(a, b) == IF a > b THEN a ELSE b
MaxOf(s) == FoldLeft(Larger, 0, s)
Sorted(v) == SortSeq(v, <)
(* Kolmogorov-Smirnov: the i-th of n values lies at i/(n+1) when they are spread evenly *)
KS(v, G) == LET s == Sorted(v) n == Len(v) IN MaxOf([i \in 1..n |-> Abs(s[i] * (n + 1) - i * G)])
(* Kuiper: the largest distances above and below the number of values to the left *)
Kuiper(v, G) == LET s == Sorted(v) n == Len(v) IN
  MaxOf([i \in 1..n |-> s[i] * n - (i - 1) * G]) + MaxOf([i \in 1..n |-> (i - 1) * G - s[i] * n])
=============================================================================
