----------------------------- MODULE MGenRange -----------------------------
(* Why the range matters: the bit supply (static_get_bits.c's way: shift, OR,     *)
(* mask) delivers exactly the generator's bits if and only if every output fits    *)
(* in the declared width W.                                                         *)
EXTENDS GenRange, Bitwise
CONSTANTS W, Outs, MaxOuts, MaxN
VARIABLES buf, left, sent, n, ok      \* sent: bits of outputs not yet delivered, oldest first
vars == <<buf, left, sent, n, ok>>
Pow(k) == 2 ^ k
Bits(v) == [i \in 1..W |-> (v \div Pow(W - i)) % 2]
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE 2 * Val(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Init == buf = 0 /\ left = 0 /\ sent = <<>> /\ n = 0 /\ ok = TRUE
(* a request for q bits, q <= W + left: at most one new output *)
Take == \E q \in 1..MaxN :
  IF left >= q
  THEN /\ left' = left - q /\ UNCHANGED <<buf, n>>
       /\ ok' = ((((buf \div Pow(left - q)) & (Pow(q) - 1))) = Val(SubSeq(sent, 1, q)))
       /\ sent' = SubSeq(sent, q + 1, Len(sent))
  ELSE /\ n < MaxOuts /\ q - left <= W /\ n' = n + 1
       /\ \E v \in Outs :
          LET need == q - left
              r == ((buf * Pow(need)) | (v \div Pow(W - need))) & (Pow(q) - 1)
              s == sent \o Bits(v) IN
          /\ buf' = v /\ left' = W - need
          /\ ok' = (r = Val(SubSeq(s, 1, q)))
          /\ sent' = SubSeq(s, q + 1, Len(s))
Next == ok /\ Take
Spec == Init /\ [][Next]_vars
Faithful == ok
=============================================================================
