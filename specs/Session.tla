------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One run of the program, from option parsing to exit (C05-C11).            *)
(*                                                                           *)
(* cfg, fixed at start:                                                      *)
(*   all    run all tests          d      selected test number, or -1        *)
(*   dn     selected test name, or ""                                        *)
(*   n      tuple size (0: not given)                                        *)
(*   t, p   requested samples per pass / passes (0: not given)               *)
(*   mn,md  pass multiplier mn/md                                            *)
(*   y      continuation mode      fail, weak   thresholds in units of 1/One *)
(*   off    pass limit             step         passes added per round       *)
(*   seed   seed option ("0": none)             strat  reseed per test       *)
(*                                                                           *)
(* Actions: Seed (the generator is seeded), Pass (one execution of a test    *)
(* function), Row (one result row), Exit.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Tests,        \* sequence of test records, ascending
          One           \* the p-value 1
VARIABLES cfg, phase, idx, ti, zi, cur, fresh, done, target, rk, ps, rounds
svars == <<cfg, phase, idx, ti, zi, cur, fresh, done, target, rk, ps, rounds>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* ---- selection and schedule (C07) ---- *)
Span(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Sizes(num, n) ==
  IF num = 200 THEN IF n # 0 THEN <<n>> ELSE Span(1, 12)
  ELSE IF num = 201 THEN IF n = 0 THEN Span(2, 5) ELSE IF n < 2 \/ n > 5 THEN <<5>> ELSE <<n>>
  ELSE IF num = 202 THEN IF n = 0 THEN Span(2, 5) ELSE IF n < 2 THEN <<5>> ELSE <<n>>
  ELSE IF num = 203 THEN IF n # 0 THEN <<n>> ELSE Span(0, 32)
  ELSE <<n>>
RECURSIVE SchedFrom(_, _)
SchedFrom(k, n) ==
  IF k > Len(Tests) THEN <<>>
  ELSE LET z == Sizes(Tests[k].num, n) IN
       [i \in 1..Len(z) |-> [test |-> Tests[k], nt |-> z[i]]] \o SchedFrom(k + 1, n)
Selected(c) == {k \in 1..Len(Tests) : IF c.dn # "" THEN Tests[k].name = c.dn ELSE Tests[k].num = c.d}
Schedule(c) ==
  IF c.all THEN SchedFrom(1, c.n)
  ELSE LET s == Selected(c) IN
       IF s = {} THEN <<>> ELSE <<[test |-> Tests[CHOOSE k \in s : TRUE], nt |-> c.n]>>
Refused(c) == ~c.all /\ Selected(c) = {}

(* ---- sample sizes (C11) ---- *)
TSamples(c, test) == IF c.all \/ c.t = 0 THEN test.ts ELSE c.t
PWanted(c, test) == IF c.all \/ c.p = 0 THEN Max(1, (test.ps * c.mn) \div c.md) ELSE c.p
PFirst(c, test) == Min(PWanted(c, test), c.off)

(* ---- assessment (C10) and stop rule (C09) ---- *)
Assess(c, p) == IF p < c.fail \/ p > One - c.fail THEN "FAILED"
                ELSE IF p < c.weak \/ p > One - c.weak THEN "WEAK" ELSE "PASSED"
TwoSided(p) == Min(p, One - p)
Smallest(q) == CHOOSE x \in {TwoSided(q[i]) : i \in 1..Len(q)} :
                  \A i \in 1..Len(q) : x <= TwoSided(q[i])
Stop(c, q, n) ==
  LET s == Smallest(q) IN
  CASE c.y = 1 -> s < c.fail \/ s >= c.weak \/ n >= c.off
    [] c.y = 2 -> s < c.fail \/ n >= c.off
    [] OTHER   -> TRUE

(* ---- the session ---- *)
Sched == Schedule(cfg)
(* where we are: test ti of the table, its zi-th size; idx counts *)
FirstTest(c) == IF c.all THEN 1 ELSE LET s == Selected(c) IN IF s = {} THEN Len(Tests) + 1 ELSE CHOOSE k \in s : TRUE
AllSizes(c, k) == IF c.all THEN Sizes(Tests[k].num, c.n) ELSE <<c.n>>
Finished == ti > Len(Tests)
Cur == [test |-> Tests[ti], nt |-> AllSizes(cfg, ti)[zi]]
Advance == LET more == zi < Len(AllSizes(cfg, ti)) IN
           /\ idx' = idx + 1
           /\ zi' = IF more THEN zi + 1 ELSE 1
           /\ ti' = IF more THEN ti ELSE IF cfg.all THEN ti + 1 ELSE Len(Tests) + 1
Stay == UNCHANGED <<idx, ti, zi>>
Start(c) == /\ cfg = c /\ phase = "boot" /\ idx = 1 /\ ti = FirstTest(c) /\ zi = 1 /\ cur = "none" /\ fresh = FALSE
            /\ done = 0 /\ target = 0 /\ rk = 0 /\ ps = <<>> /\ rounds = 0

(* Seedings before the first pass (the speed measurement also seeds) and,
   with a reseeding strategy, one before the first pass of every test *)
Seed(s) ==
  /\ phase = "boot" \/ (phase = "between" /\ cfg.strat # 0 /\ ~fresh /\ ~Finished)
  /\ (phase = "between" /\ cfg.seed # "0") => s = cfg.seed
  /\ cur' = s /\ fresh' = TRUE
  /\ Stay /\ UNCHANGED <<cfg, phase, done, target, rk, ps, rounds>>

Begins == phase \in {"boot", "between"}
Pass(num, i, nt, ts) ==
  /\ ~Finished
  /\ phase \in {"boot", "between", "passes"}
  /\ Begins => /\ (phase = "boot" \/ cfg.strat # 0) => fresh
               /\ (phase = "boot" /\ cfg.seed # "0") => cur = cfg.seed
  /\ num = Cur.test.num /\ nt = Cur.nt /\ ts = TSamples(cfg, Cur.test)
  /\ i = (IF Begins THEN 0 ELSE done)
  /\ target' = (IF Begins THEN PFirst(cfg, Cur.test) ELSE target)
  /\ done' = i + 1
  /\ done' <= target'
  /\ phase' = (IF done' = target' THEN "rows" ELSE "passes")
  /\ rk' = 0 /\ ps' = <<>>
  /\ fresh' = FALSE
  /\ rounds' = (IF Begins THEN 1 ELSE rounds)
  /\ Stay /\ UNCHANGED <<cfg, cur>>

Row(p) ==
  /\ phase = "rows"
  /\ rk < Cur.test.nk
  /\ LET q == Append(ps, p) last == rk + 1 = Cur.test.nk stop == last /\ Stop(cfg, q, done) IN
     /\ rk' = (IF last THEN 0 ELSE rk + 1)
     /\ ps' = (IF last THEN <<>> ELSE q)
     /\ phase' = (IF ~last THEN "rows" ELSE IF stop THEN "between" ELSE "passes")
     /\ IF stop THEN Advance ELSE Stay
     /\ target' = (IF last /\ ~stop THEN Min(target + cfg.step, cfg.off) ELSE target)
     /\ rounds' = (IF last /\ ~stop THEN rounds + 1 ELSE rounds)
  /\ UNCHANGED <<cfg, cur, fresh, done>>

Exit(code) ==
  /\ \/ Refused(cfg) /\ phase = "boot" /\ code # 0
     \/ ~Refused(cfg) /\ phase = "between" /\ Finished /\ code = 0 /\ ~fresh
  /\ phase' = "exit"
  /\ Stay /\ UNCHANGED <<cfg, cur, fresh, done, target, rk, ps, rounds>>

(* ---- properties of the design ---- *)
ScheduleFollowed == phase # "exit" => /\ Finished <=> idx > Len(Sched)
                                       /\ ~Finished => Cur = Sched[idx]
LimitKept == done <= cfg.off
PassesMatch == phase = "rows" => done = target
SeedKept == (cfg.seed # "0" /\ phase \notin {"boot", "exit"}) => cur = cfg.seed
OneRoundWithoutMode == cfg.y \notin {1, 2} => rounds <= 1
NoRowsWhenRefused == Refused(cfg) => phase \in {"boot", "exit"}
=============================================================================
