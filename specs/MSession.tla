------------------------------ MODULE MSession ------------------------------
(* Session, exhaustively, over small tables, all option combinations and      *)
(* every sequence of p-values (per grid class), with termination.             *)
EXTENDS Session
CONSTANT Restart     \* TRUE: the wrong variant that restarts when all p-values are 0
Grid == {0, 1, 2, 3, 5, 7, 8}      \* One = 8; fail = 1 or 0, weak = 3
Cfgs == [all : {TRUE, FALSE}, d : {-1, 0, 201}, dn : {"", "two", "nope"}, n : {0, 3, 9}, t : {0}, p : {0, 2},
         mn : {1, 5}, md : {4}, y : {0, 1, 2}, fail : {0, 1}, weak : {3}, off : {2, 5}, step : {2},
         seed : {"0", "7"}, strat : {0, 1}]
Init == \E c \in Cfgs : /\ (c.dn # "" => c.d = -1) /\ (c.all => c.d = -1 /\ c.dn = "") /\ Start(c)
SomeSeed == IF cfg.seed # "0" THEN {cfg.seed} ELSE {"r1", "r2"}
DoSeed == \E s \in SomeSeed : (phase = "boot" => cur = "none") /\ Seed(s)
DoPass == /\ ~Finished
          /\ Pass(Cur.test.num, IF Begins THEN 0 ELSE done, Cur.nt, TSamples(cfg, Cur.test))
DoRow == \E p \in Grid : Row(p)
RestartRow == /\ Restart /\ phase = "rows" /\ cfg.y # 0 /\ cfg.fail = 0 /\ done < cfg.off
              /\ phase' = "passes" /\ done' = 0 /\ rk' = 0 /\ ps' = <<>>
              /\ UNCHANGED <<cfg, idx, ti, zi, cur, fresh, target, rounds>>
DoExit == \E code \in {0, 1} : Exit(code)
Next == DoSeed \/ DoPass \/ (~Restart /\ DoRow) \/ (Restart /\ (DoRow \/ RestartRow)) \/ DoExit
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
SpecStrong == Spec /\ WF_svars(DoSeed) /\ WF_svars(DoPass) /\ WF_svars(DoRow) /\ WF_svars(DoExit)
Terminates == <>(phase = "exit")
SmallTests == << [num |-> 0, name |-> "one", nk |-> 1, ps |-> 4, ts |-> 10],
                 [num |-> 201, name |-> "two", nk |-> 2, ps |-> 1, ts |-> 20] >>
=============================================================================
