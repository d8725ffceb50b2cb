----------------------------- MODULE MRegistry -----------------------------
(* Small registries whose names are prefixes of one another.                   *)
EXTENDS Registry
CONSTANT Variant
Names == {"a", "ab", "abc"}
Pre(s, t) == <<s, t>> \in {<<"a", "a">>, <<"a", "ab">>, <<"a", "abc">>, <<"ab", "ab">>, <<"ab", "abc">>, <<"abc", "abc">>}
Nums == {2, 13, 20}
Regs == {L \in UNION {[1..n -> [num : Nums, name : Names]] : n \in 1..3} : WellFormed(L)}
VARIABLE req
vars == <<listing, running, req>>
Init == listing = <<>> /\ running = None /\ req = [by |-> "default"]
Requests == [by : {"num"}, num : Nums \cup {3, 1000}] \cup [by : {"name"}, name : Names \cup {"x"}] \cup {[by |-> "default"]}
Wrong(r) == /\ Variant = "prefix" /\ r.by = "name"
            /\ \E g \in Entries : Pre(g.name, r.name) /\ running' = g /\ UNCHANGED listing
Next == \/ listing = <<>> /\ (\E L \in Regs : List(L)) /\ UNCHANGED req
        \/ listing # <<>> /\ \E r \in Requests : ((\E g \in Entries : Select(r, g)) \/ Refuse(r) \/ Wrong(r)) /\ req' = r
Spec == Init /\ [][Next]_vars
(* one request, one outcome: never two generators, never both a generator and a refusal *)
Unique == \A r \in Requests : Cardinality(Hits(r)) <= 1
Same == \A e \in Entries : Hits([by |-> "num", num |-> e.num]) = Hits([by |-> "name", name |-> e.name])
(* what runs is what was asked for; what was asked for and is listed runs *)
Asked == running # None => running \in Hits(req)
Answered == [][listing # <<>> => (running' = None <=> Hits(req') = {})]_vars
=============================================================================
