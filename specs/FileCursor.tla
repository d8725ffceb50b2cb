----------------------------- MODULE FileCursor -----------------------------
(***************************************************************************)
(* Generators that read a list of numbers from a file (C13, C14): several of  *)
(* them may be alive, each with its own file and place in it.                 *)
(*   src[g].F    the numbers of the file that can be delivered, in order      *)
(*   src[g].p    numbers delivered since the start of the file (rptr)         *)
(*   src[g].tot  numbers delivered since the last (re)opening (rtot)          *)
(*   src[g].rw   returns to the start since the last reopening (rewind_cnt)   *)
(* The code returns to the start of the file at once when the last number was *)
(* delivered; it does not report that before another number is read.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES src
(* ---- which files are accepted at all ---- *)
RawUsable(f) == f.there /\ ~f.dir /\ f.words >= 16
(* header: the lines before the data, comments left out, each split into fields; it is *)
(* complete as soon as all three entries have been seen                                *)
Types == {"d", "i", "u", "e", "E", "f", "F", "g", "o", "x", "X", "b"}
Entries == {"type", "count", "numbit"}
Seen(h, k) == {h[i].name : i \in 1..k} \cap Entries
HeaderLen(h) == IF Seen(h, Len(h)) = Entries THEN CHOOSE k \in 1..Len(h) : Seen(h, k) = Entries /\ (k = 1 \/ Seen(h, k-1) # Entries)
                                              ELSE 0
Value(h, k, nm) == LET i == CHOOSE i \in 1..k : h[i].name = nm /\ \A j \in i+1..k : h[j].name # nm IN h[i].val
HeaderUsable(h) == LET k == HeaderLen(h) IN
   /\ k > 0
   /\ \A i \in 1..k : h[i].fields = 2
   /\ Value(h, k, "type") \in Types
   /\ \A i \in 1..k : h[i].name = "count" => h[i].num >= 1
Usable(f) == IF f.kind = "raw" THEN RawUsable(f) ELSE f.there /\ ~f.dir /\ HeaderUsable(f.h)
At(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Open(g, F) == src' = At(src, g, [F |-> F, p |-> 0, tot |-> 0, rw |-> 0])
Close(g) == g \in DOMAIN src /\ src' = [x \in DOMAIN src \ {g} |-> src[x]]
(* a seed other than 0: reopened, counters cleared *)
Reseed(g) == g \in DOMAIN src /\ src' = [src EXCEPT ![g].p = 0, ![g].tot = 0, ![g].rw = 0]
(* the file may have changed before it is reopened *)
ReseedOn(g, F) == g \in DOMAIN src /\ src' = [src EXCEPT ![g] = [F |-> F, p |-> 0, tot |-> 0, rw |-> 0]]
Next1(s) == IF s.p + 1 = Len(s.F) THEN [s EXCEPT !.p = 0, !.tot = @ + 1, !.rw = @ + 1]
                                  ELSE [s EXCEPT !.p = @ + 1, !.tot = @ + 1]
Get(g, v) == g \in DOMAIN src /\ v = src[g].F[src[g].p + 1] /\ src' = [src EXCEPT ![g] = Next1(@)]
(* n numbers at once, without n states *)
NextN(s, n) == LET L == Len(s.F) IN [s EXCEPT !.p = (@ + n) % L, !.tot = @ + n, !.rw = @ + ((s.p + n) \div L)]
GetN(g, vs) == /\ g \in DOMAIN src
               /\ \A i \in 1..Len(vs) : vs[i] = src[g].F[((src[g].p + i - 1) % Len(src[g].F)) + 1]
               /\ src' = [src EXCEPT ![g] = NextN(@, Len(vs))]
Reported(s) == IF s.rw > 0 /\ s.p = 0 THEN s.rw - 1 ELSE s.rw
=============================================================================
