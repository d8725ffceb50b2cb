------------------------------ MODULE TRepro ------------------------------
(***************************************************************************)
(* C05 on recorded runs of the real program: a result is a function.  Each   *)
(* event carries the key that may determine it (generator, seed, test, tuple *)
(* size, sizes, statistic and, without per-test reseeding, the position in   *)
(* the run) and its value; the same key never has two values.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
Ev == Trace[l]
TraceInit == l = 1 /\ memo = << >>
Result == /\ l <= Len(Trace)
          /\ Ev.k \in DOMAIN memo => memo[Ev.k] = Ev.v
          /\ memo' = (Ev.k :> Ev.v) @@ memo
          /\ l' = l + 1
TraceSpec == TraceInit /\ [][Result]_<<l, memo>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
