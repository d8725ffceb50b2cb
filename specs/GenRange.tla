------------------------------ MODULE GenRange ------------------------------
(***************************************************************************)
(* C04.  Words are sequences of 16-bit parts, most significant first; a          *)
(* floating-point value is its IEEE 754 pattern, whose order is that of the        *)
(* values for everything from +0 up (a negative value or a NaN is above 1.0 in     *)
(* this order).                                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences
RECURSIVE Leq(_, _)
Leq(a, b) == IF Len(a) = 0 THEN TRUE
             ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Leq(Tail(a), Tail(b))
One == <<16368, 0, 0, 0>>            \* 0x3FF0 0000 0000 0000 = 1.0
MinusZero == <<32768, 0, 0, 0>>
InRange(v, min, max) == Leq(min, v) /\ Leq(v, max)
UnitInterval(d) == Leq(d, One) \/ d = MinusZero
=============================================================================
