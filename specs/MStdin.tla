------------------------------- MODULE MStdin ------------------------------
(* Every way to cut a short stream into chunks, with every point at which the  *)
(* reader gets to run; the test takes PerRow words and then reports.            *)
EXTENDS Stdin
CONSTANTS Max, PerRow, Variant
VARIABLES sent, got, left     \* bytes sent, words delivered, words the test still wants
vars == <<svars, sent, got, left>>
MInit == Init /\ sent = 0 /\ got = <<>> /\ left = PerRow
Stream == [i \in 1..Max |-> i]
Send(n) == sent + n <= Max /\ Arrive(SubSeq(Stream, sent + 1, sent + n)) /\ sent' = sent + n /\ UNCHANGED <<got, left>>
(* wrong: a word is made of what has arrived, padded / the end is answered with the last word *)
Short == Variant = "short" /\ ~stopped /\ left > 0 /\ ~CanTake(1) /\ Len(bytes) > W * taken
         /\ taken' = taken + 1 /\ got' = Append(got, SubSeq(bytes, W * taken + 1, Len(bytes))) /\ left' = left - 1
         /\ UNCHANGED <<bytes, eof, rows, stopped, sent>>
Paper == Variant = "paper" /\ ~stopped /\ left > 0 /\ eof /\ ~CanTake(1) /\ Len(got) > 0
         /\ got' = Append(got, got[Len(got)]) /\ left' = left - 1 /\ UNCHANGED <<svars, sent>>
Read == left > 0 /\ CanTake(1) /\ \E w \in {WordAt(taken + 1)} : Take(w) /\ got' = Append(got, w) /\ left' = left - 1 /\ UNCHANGED sent
Row == left = 0 /\ Report /\ left' = PerRow /\ UNCHANGED <<sent, got>>
Next == (\E n \in 1..Max : Send(n)) \/ (EndOfStream /\ UNCHANGED <<sent, got, left>>)
        \/ Read \/ Row \/ (left > 0 /\ Stop /\ UNCHANGED <<sent, got, left>>) \/ Short \/ Paper
Spec == MInit /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Row) /\ WF_vars(left > 0 /\ Stop /\ UNCHANGED <<sent, got, left>>)
Exact == \A i \in 1..Len(got) : W * i <= Max /\ got[i] = SubSeq(Stream, W * (i - 1) + 1, W * i)
Paid == rows * PerRow <= Len(bytes) \div W
Ends == []<>(eof => stopped)
=============================================================================
