------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Selecting a generator (C17).  listing: what the program lists, as a         *)
(* sequence of [num, name].  A request is a number or a name (or nothing).     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES listing, running      \* running: the generator in use, or None
Entries == {listing[i] : i \in 1..Len(listing)}
None == [num |-> -1, name |-> ""]
Default == 13
Match(e, r) == CASE r.by = "num"     -> e.num = r.num
                 [] r.by = "name"    -> e.name = r.name
                 [] r.by = "default" -> e.num = Default
Hits(r) == {e \in Entries : Match(e, r)}
List(L) == listing' = L /\ running' = None
(* g: the generator that then runs, as the report names it *)
Select(r, g) == /\ Hits(r) # {} /\ g \in Hits(r)
                /\ running' = g /\ UNCHANGED listing
Refuse(r) == Hits(r) = {} /\ running' = None /\ UNCHANGED listing
WellFormed(L) == \A i, j \in 1..Len(L) : i # j => L[i].num # L[j].num /\ L[i].name # L[j].name
=============================================================================
