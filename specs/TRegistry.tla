----------------------------- MODULE TRegistry -----------------------------
(* Runs of the real program: what was asked, what the report says ran, and     *)
(* whether the words it drew are those of that generator (w: drawn,            *)
(* ref: the library's generator of that number under the same seed).            *)
EXTENDS Registry, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ listing = <<>> /\ running = None
TList == Is("list") /\ WellFormed(Ev.L) /\ Len(Ev.L) > 0
         /\ {Ev.L[i] : i \in 1..Len(Ev.L)} = {Ev.reg[i] : i \in 1..Len(Ev.reg)} /\ List(Ev.L)
TSelect == Is("select") /\ Ev.rows > 0 /\ Ev.w = Ev.ref /\ Select(Ev.r, Ev.g)
TRefuse == Is("refuse") /\ Ev.rows = 0 /\ Ev.runs = 0 /\ Refuse(Ev.r)
TNext == TList \/ TSelect \/ TRefuse
TraceSpec == TraceInit /\ [][TNext]_<<l, listing, running>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
