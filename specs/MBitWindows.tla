----------------------------- MODULE MBitWindows -----------------------------
(* Laws of the selection operators, for every word and offset at a small U.  *)
EXTENDS BitWindows
VARIABLES x, y, s, n
Words == [1..U -> {0, 1}]
Init == x \in Words /\ y \in Words /\ s \in 0..2*U-1 /\ n \in 1..U
Next == UNCHANGED <<x, y, s, n>>
Spec == Init /\ [][Next]_<<x, y, s, n>>
Laws ==
  /\ RotL(RotR(x, s % U), s % U) = x
  /\ RotR(x, s % U) = [i \in 1..U |-> Str(<<x>>, U - i + U - (s % U))]
  /\ (s < U /\ s + n <= U) => Window(x, s, s + n - 1, U - n) = [i \in 1..U |-> IF i <= n THEN Cyc(<<x>>, n, s)[i] ELSE 0]
  /\ \A m \in 1..U : Cyc(<<x, y>>, n + m, s) = Cyc(<<x, y>>, m, s + n) \o Cyc(<<x, y>>, n, s)
  /\ Cyc(<<x, y>>, n, s + 2 * U) = Cyc(<<x, y>>, n, s)
  /\ Low(x, n)[1] = Cycle1(x, n)[n]
  /\ \A a \in 0..U-1 : \A b \in a..U-1 : Window(x, a, b, a) = [i \in 1..U |-> IF Umask(a, b)[i] = 1 THEN x[i] ELSE 0]
  /\ \A w \in 1..U : n <= w => NTuple(<<x, y>>, w, n, 0) = Low(y, n)
=============================================================================
