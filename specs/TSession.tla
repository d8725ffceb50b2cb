------------------------------ MODULE TSession ------------------------------
(* Recorded sessions of the real program against Session.  Aspect selects     *)
(* which of the logged fields are bound (each property binds its own).        *)
EXTENDS Session, TestTable, Json, IOUtils, TLC
CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
On(a) == a \in Aspects
TraceInit == l = 1 /\ cfg = [none |-> 0] /\ phase = "exit" /\ idx = 1 /\ ti = 1 /\ zi = 1 /\ cur = "none" /\ fresh = FALSE
             /\ done = 0 /\ target = 0 /\ rk = 0 /\ ps = <<>> /\ rounds = 0
TNew == /\ Is("cfg") /\ phase = "exit"
        /\ cfg' = Ev.c /\ phase' = "boot" /\ idx' = 1 /\ ti' = FirstTest(Ev.c) /\ zi' = 1 /\ cur' = "none" /\ fresh' = FALSE
        /\ done' = 0 /\ target' = 0 /\ rk' = 0 /\ ps' = <<>> /\ rounds' = 0
TSeed == Is("set") /\ Seed(Ev.s)
TPass == Is("run") /\ Pass(Ev.t, Ev.i, Ev.nt, Ev.ts)
TRng == /\ Is("rng") /\ phase = "rows" /\ rk = 0
        /\ (On("seed") /\ Ev.s # "" => Ev.s = cur)
        /\ UNCHANGED svars
Near(a, b) == a - b <= 1 /\ b - a <= 1
TRow == /\ Is("row")
        /\ Row(Ev.p)
        /\ On("sched") => Ev.name = Cur.test.name /\ Ev.num = Cur.test.num /\ Ev.nt = Cur.nt
        /\ On("sizes") => Ev.ts = TSamples(cfg, Cur.test) /\ Ev.ps = done
        /\ On("assess") => Ev.a = Assess(cfg, Ev.p)
        /\ On("seed") => (IF cfg.strat # 0 THEN Ev.s = cur ELSE Ev.s = "")
        /\ On("ks") => Near(Ev.p, Ev.kp) /\ Ev.cnt = done
TExit == Is("exit") /\ Exit(Ev.code)
TNext == TNew \/ TSeed \/ TPass \/ TRng \/ TRow \/ TExit
TraceSpec == TraceInit /\ [][TNext]_<<svars, l>>
Safe == phase = "exit" \/ (LimitKept /\ PassesMatch /\ SeedKept /\ OneRoundWithoutMode /\ NoRowsWhenRefused)
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
