-------------------------------- MODULE TXor --------------------------------
(* Recorded outputs of the real combining generator; words are halves.          *)
EXTENDS Xor, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ S = <<>> /\ pos = 0
TNext == \/ Is("seed") /\ Seed(Ev.S)
         \/ Is("get") /\ GetN(Ev.v)
         \/ Is("refused") /\ (Ev.comps = 0 \/ Ev.unknown) /\ Ev.rows = 0 /\ UNCHANGED <<S, pos>>
TraceSpec == TraceInit /\ [][TNext]_<<l, S, pos>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
