----------------------------- MODULE TestObject -----------------------------
(***************************************************************************)
(* The library's test objects (C08, C11): create, run or extend, clear,       *)
(* destroy, several of them alive and interleaved.                            *)
(*   o.nk    statistics      o.fresh  no pass since creation or clear         *)
(*   o.want  passes of the first run                                          *)
(*   o.acc   p-values per statistic, in the order of the passes               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
VARIABLES opt, objs
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Want(o, ps) == IF o.all \/ o.p = 0 THEN Max2(1, (ps * o.mn) \div 8) ELSE o.p
TSize(o, ts) == IF o.all \/ o.t = 0 THEN ts ELSE o.t
Create(id, nk, ps, ts) ==
  /\ id \notin DOMAIN objs
  /\ objs' = [x \in DOMAIN objs \cup {id} |-> IF x = id
       THEN [nk |-> nk, fresh |-> TRUE, want |-> Want(opt, ps), std |-> ps, ts |-> TSize(opt, ts), acc |-> [j \in 1..nk |-> <<>>]]
       ELSE objs[x]]
  /\ UNCHANGED opt
Done(id) == Len(objs[id].acc[1])
(* the passes the next std_test() makes *)
Upto(id) == IF objs[id].fresh THEN Min2(objs[id].want, opt.off) ELSE Max2(Done(id), Min2(Done(id) + opt.step, opt.off))
From(id) == IF objs[id].fresh THEN 0 ELSE Done(id)
(* new: one tuple of p-values per pass *)
Extend(id, new) ==
  /\ objs' = [objs EXCEPT ![id].fresh = FALSE,
                          ![id].acc = [j \in 1..objs[id].nk |->
                             (IF objs[id].fresh THEN <<>> ELSE objs[id].acc[j]) \o [i \in 1..Len(new) |-> new[i][j]]]]
  /\ UNCHANGED opt
Std(id, new) == id \in DOMAIN objs /\ Len(new) = Upto(id) - From(id) /\ Extend(id, new)
Clear(id) ==
  /\ id \in DOMAIN objs
  /\ objs' = [objs EXCEPT ![id].fresh = TRUE, ![id].want = Want(opt, objs[id].std),
                          ![id].acc = [j \in 1..objs[id].nk |-> <<>>]]
  /\ UNCHANGED opt
Destroy(id) == /\ id \in DOMAIN objs
               /\ objs' = [x \in DOMAIN objs \ {id} |-> objs[x]]
               /\ UNCHANGED opt
(* ---- design properties ---- *)
Limit == \A id \in DOMAIN objs : Done(id) <= opt.off
Aligned == \A id \in DOMAIN objs : \A j \in 1..objs[id].nk : Len(objs[id].acc[j]) = Done(id)
=============================================================================
