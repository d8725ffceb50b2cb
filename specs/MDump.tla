------------------------------- MODULE MDump -------------------------------
(* Every dump of up to Max values and its read-back.                           *)
EXTENDS Dump
CONSTANTS Max, Variant
VARIABLE written, seen
vars == <<dvars, written, seen>>
Streams == UNION {[1..Max + 1 -> {0, 1}]}
Init == src = <<>> /\ job = [fmt |-> "raw", n |-> 0, gen |-> "", seed |-> 0] /\ stream = <<>> /\ phase = "none" /\ k = 0 /\ written = <<>> /\ seen = 0
DoStart == phase = "none" /\ seen = 0 /\ (\E f \in {"raw", "uint"}, n \in 1..Max, V \in Streams :
              Start([fmt |-> f, n |-> n, gen |-> "g", seed |-> 1], V)) /\ written' = <<>> /\ seen' = 0
DoHeader == /\ phase = "header" /\ Header([gen |-> "g", seed |-> 1, type |-> "d", count |-> job.n, numbit |-> 32])
            /\ UNCHANGED <<written, seen>>
DoValue == /\ phase = "values" /\ k < job.n
           /\ LET v == IF Variant = "skip" THEN stream[k + 2] ELSE stream[k + 1]
              IN written' = Append(written, v)
           /\ k' = k + 1 /\ UNCHANGED <<src, job, stream, phase, seen>>
DoEnd == Finish /\ UNCHANGED <<written, seen>>
DoOpen == src = <<>> /\ ReadOpen(written) /\ UNCHANGED <<written, seen>>
DoGet == /\ src # <<>> /\ seen < 2 * Max
         /\ \E v \in {src["back"].F[src["back"].p + 1]} : Get("back", v) /\ UNCHANGED <<job, stream, phase, k, written>>
         /\ seen' = seen + 1
Next == DoStart \/ DoHeader \/ DoValue \/ DoEnd \/ DoOpen \/ DoGet
Spec == Init /\ [][Next]_vars
Prefix == \A i \in 1..Len(written) : written[i] = stream[i]
Complete == phase = "done" => Len(written) = job.n
Back == [][seen' = seen + 1 => src["back"].F[src["back"].p + 1] = stream[(seen % job.n) + 1]]_vars
=============================================================================
