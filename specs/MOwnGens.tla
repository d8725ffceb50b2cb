------------------------------ MODULE MOwnGens ------------------------------
(* The buffers of the generators, small: the code delivers from a buffer with a  *)
(* position; the recurrence is a sequence.  Kind "ca": cells updated in place       *)
(* from right to left, S at a time, against whole generations.  Kind "block": a     *)
(* block of words encrypted again when it is used up.  Kind "mwc": a table of Q      *)
(* words refilled at once, against the lag-Q multiply-with-carry sequence.            *)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Kind, Variant, W, S, Len1
VARIABLES b, pos, aux, start, out
vars == <<b, pos, aux, start, out>>
Bit == {0, 1}
(* ---- ca: aux = the rule [0..2 -> Bit] ---- *)
Gen(x, rule) == [i \in 1..W |-> rule[IF i = 1 THEN x[1] ELSE x[i - 1] + x[i]]]
RECURSIVE Gens(_, _, _)
Gens(x, rule, g) == IF g = 0 THEN x ELSE Gens(Gen(x, rule), rule, g - 1)
RECURSIVE Update(_, _, _)
Update(x, i, m) == IF m = 0 THEN x ELSE
  Update([x EXCEPT ![i] = aux[IF i = 1 THEN x[1] + (IF Variant = "wrap" THEN x[W] ELSE 0) ELSE x[i - 1] + x[i]]],
         IF Variant = "leftfirst" THEN i + 1 ELSE i - 1, m - 1)
CaInit == /\ b \in [1..W -> Bit] /\ aux \in [0..2 -> Bit] /\ pos = W
CaStep == LET x == IF Variant = "leftfirst" THEN Update(b, pos - S + 1, S) ELSE Update(b, pos, S) IN
  /\ b' = x
  /\ out' = Append(out, SubSeq(x, pos - S + 1, pos))
  /\ pos' = IF pos = S THEN W ELSE pos - S
  /\ UNCHANGED aux
CaWord(n) == LET per == W \div S  g == (n - 1) \div per + 1  j == (n - 1) % per IN
  SubSeq(Gens(start, aux, g), W - S * (j + 1) + 1, W - S * j)
(* ---- block: W words per block, aux = a permutation of blocks numbered 0..3 ---- *)
Perms == {f \in [0..3 -> 0..3] : \A i, j \in 0..3 : f[i] = f[j] => i = j}
BlInit == b \in 0..3 /\ aux \in Perms /\ pos = 0
BlStep == LET full == IF Variant = "short" THEN pos + 1 >= W ELSE pos + 1 > W
              nb == IF full THEN aux[b] ELSE b
              p == IF full THEN 0 ELSE pos IN
  /\ b' = nb /\ out' = Append(out, <<nb, p>>) /\ pos' = (IF Variant = "stay" /\ full THEN p + 2 ELSE p + 1) /\ UNCHANGED aux
RECURSIVE Times(_, _, _)
Times(x, f, n) == IF n = 0 THEN x ELSE Times(f[x], f, n - 1)
BlWord(n) == <<Times(start, aux, (n - 1) \div W), (n - 1) % W>>
(* ---- mwc modulo 4, multiplier 3; aux = carry ---- *)
MwInit == b \in [1..W -> 0..3] /\ aux = <<1, 1>> /\ pos = W + 1       \* aux: carry now, carry at the start
RECURSIVE Refill(_, _, _)
Refill(q, c, i) == IF i > W THEN <<q, c>> ELSE
  LET t == 3 * q[i] + c IN Refill([q EXCEPT ![i] = 3 - (t % 4)], t \div 4, i + 1)
MwStep == IF pos <= W THEN out' = Append(out, b[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<b, aux>>
  ELSE LET r == Refill(b, IF Variant = "carry" THEN 1 ELSE aux[1], 1) IN
    b' = r[1] /\ aux' = <<r[2], 1>> /\ out' = Append(out, r[1][1]) /\ pos' = IF Variant = "twice" THEN 1 ELSE 2
RECURSIVE MwSeq(_, _, _)
MwSeq(x, c, n) == IF Len(x) = n THEN x ELSE LET t == 3 * x[Len(x) - W + 1] + c IN MwSeq(Append(x, 3 - (t % 4)), t \div 4, n)
MwWord(n) == MwSeq(start, 1, W + n)[W + n]
(* ---- *)
Init == out = <<>> /\ (CASE Kind = "ca" -> CaInit [] Kind = "block" -> BlInit [] Kind = "mwc" -> MwInit) /\ start = b
Next == Len(out) < Len1 /\ UNCHANGED start /\ CASE Kind = "ca" -> CaStep [] Kind = "block" -> BlStep [] Kind = "mwc" -> MwStep
Spec == Init /\ [][Next]_vars
Delivered == \A n \in 1..Len(out) : out[n] = CASE Kind = "ca" -> CaWord(n) [] Kind = "block" -> BlWord(n) [] Kind = "mwc" -> MwWord(n)
=============================================================================
