----------------------------- MODULE TBitStream -----------------------------
(* Recorded calls of the real delivery functions against BitStream.          *)
EXTENDS BitStream, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<bvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == BInit /\ l = 1
TNext == \/ Is("reset") /\ Reset
         \/ Is("word")  /\ Word(Ev.d, Ev.r)
         \/ Is("bits")  /\ Bits(Ev.n, Ev.d, Ev.r) /\ Ev.pad = 0
         \/ Is("lbits") /\ LBits(Ev.n, Ev.d, Ev.r)
TraceSpec == TraceInit /\ [][TNext]_tvars
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
