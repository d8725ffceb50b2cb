----------------------------- MODULE TGenStream -----------------------------
(* Recorded histories of real generators; the streams carried by the seeding     *)
(* events come from fresh processes that did nothing else.                         *)
EXTENDS GenStream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ st = << >>
TNext == \/ Is("seed") /\ Seed(Ev.i, Ev.I, Ev.D)
         \/ Is("int") /\ Drawn(Ev.i, Ev.v, "int")
         \/ Is("dbl") /\ Drawn(Ev.i, Ev.v, "dbl")
         \/ Is("free") /\ Free(Ev.i)
         \/ Is("restart") /\ st' = << >>
TraceSpec == TraceInit /\ [][TNext]_<<l, st>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
