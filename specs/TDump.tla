------------------------------- MODULE TDump -------------------------------
(* Dumps of the real program and their read-back by the real file generators.  *)
(* A value is <<high 16 bits, low 16 bits>> (raw, uint) or the ten decimals as  *)
(* two groups of five digits.  A read-back word of a decimal may differ by one  *)
(* unit (rounding of the scaling is not part of the promise).                   *)
EXTENDS Dump, Integers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ src = <<>> /\ job = [fmt |-> "", n |-> 0, gen |-> "", seed |-> "0"] /\ stream = <<>> /\ phase = "none" /\ k = 0
Diff(a, b) == LET d == a[1] - b[1] IN IF d > 1 \/ d < -1 THEN 9 ELSE d * 65536 + a[2] - b[2]
Close1(a, b) == Diff(a, b) \in -1..1
TStart == Is("start") /\ Start(Ev.job, Ev.V)
THeader == Is("header") /\ Header(Ev.h)
TValues == Is("values") /\ Values(Ev.v)
TFinish == Is("end") /\ Finish
TRefused == Is("refused") /\ Ev.file /\ Ev.out = 0 /\ Ev.kept /\ UNCHANGED dvars
(* F: the words the dumped values stand for *)
TOpen == Is("back") /\ (job.fmt # "decimal" => Ev.F = SubSeq(stream, 1, job.n)) /\ ReadOpen(Ev.F)
TGet == /\ Is("get") /\ phase = "done"
        /\ LET s == src["back"] IN
           \A i \in 1..Len(Ev.v) : LET want == s.F[((s.p + i - 1) % Len(s.F)) + 1] IN
              IF job.fmt = "decimal" THEN Close1(Ev.v[i], want) ELSE Ev.v[i] = want
        /\ src' = [src EXCEPT !["back"] = NextN(@, Len(Ev.v))] /\ UNCHANGED <<job, stream, phase, k>>
TNext == TStart \/ THeader \/ TValues \/ TFinish \/ TRefused \/ TOpen \/ TGet
TraceSpec == TraceInit /\ [][TNext]_<<l, dvars>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
