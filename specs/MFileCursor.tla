---------------------------- MODULE MFileCursor ----------------------------
(* All interleavings of two generators over files of 1 to 3 numbers.          *)
EXTENDS FileCursor
CONSTANTS MaxTot, Variant
VARIABLE last      \* the place (since reopening) and value of the last number delivered
vars == <<src, last>>
Gens == {"a", "b"}
Files == {<<"x">>, <<"x", "y">>, <<"x", "y", "z">>}
Init == src = <<>> /\ last = [g |-> "-", n |-> 0, v |-> ""]
DoGet(g) ==
  LET s == src[g]
      bad == Variant = "late" /\ s.p = Len(s.F)            \* returns to the start only when reading past the end
      v == IF Variant = "late" THEN s.F[IF bad THEN 1 ELSE s.p + 1] ELSE s.F[s.p + 1]
      t == IF Variant = "late"
           THEN [s EXCEPT !.p = IF bad THEN 1 ELSE @ + 1, !.tot = @ + 1, !.rw = IF bad THEN @ + 1 ELSE @]
           ELSE Next1(s)
  IN /\ s.tot < MaxTot
     /\ src' = [src EXCEPT ![g] = IF Variant = "keeprw" /\ t.rw > s.rw THEN [t EXCEPT !.rw = s.rw + 2] ELSE t]
     /\ last' = [g |-> g, n |-> s.tot, v |-> v]
Next == \/ \E g \in Gens, F \in Files : Open(g, F) /\ UNCHANGED last
        \/ \E g \in DOMAIN src : DoGet(g) \/ (Reseed(g) /\ UNCHANGED last) \/ (Close(g) /\ UNCHANGED last)
Spec == Init /\ [][Next]_vars
(* the n-th number since (re)opening is number n mod F of the file ... *)
InOrder == [][\A g \in DOMAIN src : (g \in DOMAIN src' /\ src'[g].tot = src[g].tot + 1) =>
                last'.v = src[g].F[(src[g].tot % Len(src[g].F)) + 1]]_vars
(* ... the counters say so, and a return is reported once a number was read after it *)
Counted == \A g \in DOMAIN src : LET s == src[g] IN
             /\ Reported(s) = IF s.tot = 0 THEN 0 ELSE (s.tot - 1) \div Len(s.F)
             /\ s.p < Len(s.F)
(* one generator's reads never move another *)
Apart == [][\A g \in DOMAIN src : last' # last /\ last'.g # g /\ g \in DOMAIN src' => src'[g] = src[g]]_vars
Jump == \A g \in DOMAIN src : \A n \in 0..4 :
          LET RECURSIVE Step(_, _)
              Step(s, k) == IF k = 0 THEN s ELSE Step(Next1(s), k - 1)
          IN NextN(src[g], n) = Step(src[g], n)
=============================================================================
