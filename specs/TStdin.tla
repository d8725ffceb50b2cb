------------------------------- MODULE TStdin ------------------------------
(* Runs of the real program on a pipe.  take carries words as lists of bytes.  *)
EXTENDS Stdin, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == Init /\ l = 1
TBegin == /\ Is("begin") /\ bytes' = Ev.bytes /\ eof' = TRUE /\ taken' = 0 /\ rows' = 0 /\ stopped' = FALSE
TTake == /\ Is("take") /\ ~stopped /\ CanTake(Len(Ev.w))
         /\ \A i \in 1..Len(Ev.w) : Ev.w[i] = WordAt(taken + i)
         /\ taken' = taken + Len(Ev.w) /\ UNCHANGED <<bytes, eof, rows, stopped>>
TRow == Is("row") /\ Report
TStop == Is("stop") /\ Ev.msg /\ Stop
TNext == TBegin \/ TTake \/ TRow \/ TStop
TraceSpec == TraceInit /\ [][TNext]_<<l, svars>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
