------------------------------ MODULE GenStream ------------------------------
(***************************************************************************)
(* Software generators (C03).  st[i], for every live generator i: the stream   *)
(* its last seeding fixed (as integers and as floating-point values, output by   *)
(* output) and the number of outputs drawn since.  Nothing else is state: an      *)
(* output depends on the generator's kind and seed and on its index, and on        *)
(* nothing any generator did before that seeding.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
VARIABLE st
Seed(i, I, D) == st' = (i :> [I |-> I, D |-> D, pos |-> 0]) @@ st
Free(i) == i \in DOMAIN st /\ st' = [j \in DOMAIN st \ {i} |-> st[j]]
Drawn(i, vs, which) ==
  /\ i \in DOMAIN st
  /\ LET s == st[i] IN
     /\ s.pos + Len(vs) <= Len(s.I)
     /\ \A k \in 1..Len(vs) : vs[k] = (IF which = "int" THEN s.I ELSE s.D)[s.pos + k]
     /\ st' = [st EXCEPT ![i].pos = @ + Len(vs)]
=============================================================================
