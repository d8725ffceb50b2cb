-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* The output mode (C16): a truthful header (formats uint and decimal), then  *)
(* exactly n values of the stream, then nothing; read back by the matching     *)
(* file generator (FileCursor) the values come out again.                      *)
(*   job: [fmt, n, gen, seed], stream: the values the generator produces       *)
(***************************************************************************)
EXTENDS FileCursor
VARIABLES job, stream, phase, k     \* k values written so far
dvars == <<src, job, stream, phase, k>>
Start(j, V) == /\ phase \in {"none", "done"}
               /\ job' = j /\ stream' = V /\ k' = 0 /\ src' = <<>>
               /\ phase' = IF j.fmt = "raw" THEN "values" ELSE "header"
Header(h) == /\ phase = "header"
             /\ h = [gen |-> job.gen, seed |-> job.seed, type |-> IF job.fmt = "uint" THEN "d" ELSE "f",
                     count |-> job.n, numbit |-> 32]
             /\ phase' = "values" /\ UNCHANGED <<src, job, stream, k>>
Values(vs) == /\ phase = "values" /\ k + Len(vs) <= job.n
              /\ \A i \in 1..Len(vs) : vs[i] = stream[k + i]
              /\ k' = k + Len(vs) /\ UNCHANGED <<src, job, stream, phase>>
Finish == phase = "values" /\ k = job.n /\ phase' = "done" /\ UNCHANGED <<src, job, stream, k>>
(* the dump as an input file *)
ReadOpen(F) == phase = "done" /\ Open("back", F) /\ UNCHANGED <<job, stream, phase, k>>
=============================================================================
