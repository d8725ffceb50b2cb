---------------------------- MODULE MTestObject ----------------------------
(* TestObject at small sizes, exhaustively: every interleaving of two objects. *)
EXTENDS TestObject, FiniteSets
CONSTANTS RestartOnZero   \* wrong variant: p-values that are all zero count as "not yet run"
VARIABLE ghost            \* every p-value ever computed for an object since creation/clear
Opts == [all : {FALSE, TRUE}, mn : {1, 8}, off : {2, 3}, step : {1, 2}, p : {0, 2}, t : {0}]
Init == opt \in Opts /\ objs = <<>> /\ ghost = [id \in {1, 2} |-> 0]
Vals == {0, 1}
AllZero(id) == RestartOnZero /\ Done(id) > 0 /\ \A i \in 1..Done(id) : objs[id].acc[1][i] = 0
DoStd(id) ==
  /\ id \in DOMAIN objs /\ Done(id) < opt.off
  /\ LET restart == AllZero(id) n == IF restart THEN Min2(objs[id].want, opt.off) ELSE Upto(id) - From(id) IN
     \E new \in [1..n -> [1..1 -> Vals]] :
        /\ IF restart THEN objs' = [objs EXCEPT ![id].acc = [j \in 1..1 |-> [i \in 1..n |-> new[i][j]]]] /\ UNCHANGED opt
           ELSE Std(id, new)
        /\ ghost' = [ghost EXCEPT ![id] = IF objs[id].fresh THEN n ELSE @ + n]
Next == \E id \in {1, 2} :
  \/ Create(id, 1, 2, 5) /\ ghost' = [ghost EXCEPT ![id] = 0]
  \/ DoStd(id)
  \/ Clear(id) /\ ghost' = [ghost EXCEPT ![id] = 0]
  \/ Destroy(id) /\ UNCHANGED ghost
Spec == Init /\ [][Next]_<<opt, objs, ghost>>
Kept == \A id \in DOMAIN objs : Done(id) = ghost[id]
=============================================================================
