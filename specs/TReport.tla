------------------------------ MODULE TReport ------------------------------
(* Recorded runs of the real program with scripted results: the text between     *)
(* two tests is the report of the first.                                           *)
EXTENDS Report, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, seed, acc, cur, first
vars == <<l, c, seed, acc, cur, first>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ c = [F |-> {}] /\ seed = "" /\ acc = <<>> /\ cur = [name |-> ""] /\ first = TRUE
Cfg == /\ Is("cfg") /\ first' = TRUE /\ seed' = "" /\ acc' = <<>> /\ cur' = [name |-> ""]
       /\ c' = [F |-> Flags(Ev.D), strat |-> Ev.strat, file |-> Ev.file, gname |-> Ev.gname, gnum |-> Ev.gnum, fail |-> Ev.fail, weak |-> Ev.weak]
Set == Is("set") /\ seed' = Ev.s /\ UNCHANGED <<c, acc, cur, first>>
Run == /\ Is("run")
       /\ acc' = IF Ev.i = 0 THEN [k \in 1..Len(Ev.p) |-> <<Ev.p[k]>>] ELSE [k \in 1..Len(Ev.p) |-> Append(acc[k], Ev.p[k])]
       /\ cur' = [name |-> Ev.name, num |-> Ev.t, nt |-> Ev.nt, ts |-> Ev.ts]
       /\ UNCHANGED <<c, seed, first>>
Out == /\ Is("text") /\ cur.name # ""
       /\ LET r == [name |-> cur.name, num |-> cur.num, nt |-> cur.nt, ts |-> cur.ts, kp |-> Ev.kp, ps |-> acc] IN
          /\ ("histogram" \in c.F) => ScaleOk(r, Ev.vs)
          /\ Printed(Text(c, seed, r, first, Ev.vs, Ev.d), Ev.L, "no_whitespace" \notin c.F)
       /\ first' = FALSE /\ UNCHANGED <<c, seed, acc, cur>>
(* an unknown flag name is refused: nothing is run or printed *)
Refused == Is("refused") /\ Ev.lines = 0 /\ Ev.runs = 0 /\ UNCHANGED <<c, seed, acc, cur, first>>
TNext == Cfg \/ Set \/ Run \/ Out \/ Refused
TraceSpec == TraceInit /\ [][TNext]_vars
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
