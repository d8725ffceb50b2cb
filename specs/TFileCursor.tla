---------------------------- MODULE TFileCursor ----------------------------
(* Recorded use of the real file generators against FileCursor.  A number is   *)
(* <<high 16 bits, low 16 bits>>.  fds: open files the process holds beyond     *)
(* those it held before the first generator.                                    *)
EXTENDS FileCursor, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ src = <<>>
TNext == \/ Is("begin") /\ src' = <<>>
         \/ Is("open")  /\ Usable(Ev.f) /\ Open(Ev.g, Ev.F)
         \/ Is("refused") /\ ~Usable(Ev.f) /\ Ev.rows = 0 /\ UNCHANGED src
         (* the list is shorter than the header says: an error after the last number, no result *)
         \/ Is("ended") /\ Ev.declared > Len(src[Ev.g].F) /\ src[Ev.g].tot = Len(src[Ev.g].F) /\ Ev.rows = 0 /\ UNCHANGED src
         \/ Is("seed")  /\ Reseed(Ev.g)
         \/ Is("reopen") /\ ReseedOn(Ev.g, Ev.F)
         \/ Is("get")   /\ GetN(Ev.g, Ev.v)
         \/ Is("stat")  /\ Ev.tot = src[Ev.g].tot /\ Ev.rw = Reported(src[Ev.g]) /\ UNCHANGED src
         \/ Is("fds")   /\ Ev.n <= Cardinality(DOMAIN src) /\ UNCHANGED src
TraceSpec == TraceInit /\ [][TNext]_<<l, src>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
