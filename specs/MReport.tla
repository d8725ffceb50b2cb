------------------------------ MODULE MReport ------------------------------
(* For every set of flags (and a result with two statistics): titles and fields   *)
(* correspond one to one, every statistic has one row, nothing unselected appears,  *)
(* and the flags are the same however the -D arguments are split and ordered.        *)
EXTENDS Report
CONSTANTS Strats, Files, DropField
VARIABLES n, strat, file, F
vars == <<n, strat, file, F>>
Rest == strat \in Strats /\ file \in Files /\ F = Flags(<<[n |-> n, s |-> ""]>>)
Init == n \in 1..(2 ^ 18 - 1) /\ Rest
InitQ == n \in {x \in 1..(2 ^ 18 - 1) : x % 61 = 5} /\ Rest
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == [F |-> F, strat |-> strat, file |-> file, gname |-> "g", gnum |-> 7, fail |-> 100, weak |-> 500000]
R == [name |-> "t", num |-> 3, nt |-> 4, ts |-> 5, kp |-> <<50000000, 99999999>>, ps |-> <<<<0, 100000000>>, <<50000000, 1>>>>]
T == Text(C, "11", R, TRUE, <<1, 1>>, <<[t |-> "com", f |-> <<"d">>]>>)
TitleOf(L) == CHOOSE x \in {L[i] : i \in 1..Len(L)} : x.t = "tok"
Correspond == /\ Len(RngTitle(C).f) = Len(RngLine(C, "11").f)
              /\ Len(TitleOf(Titles(C)).f) = Len(Row(C, "11", R, 1).f) + (IF DropField /\ "ntuple" \in C.F THEN 1 ELSE 0)
OneRowEach == LET t == T
                  r1 == Row(C, "11", R, 1)
                  r2 == Row(C, "11", R, 2)
                  rows == {i \in 1..Len(t) : t[i] = r1 \/ t[i] = r2} IN
              "test_name" \in C.F => Cardinality(rows) = 2
OnlySelected == LET t == T
                    ts == {t[i].t : i \in 1..Len(t)} IN
                /\ "histogram" \notin C.F => "htitle" \notin ts /\ "hrow" \notin ts
                /\ "description" \notin C.F => "com" \notin ts
                /\ "header" \notin C.F => "version" \notin ts
(* split into names, in ascending and descending order *)
RECURSIVE Names(_, _)
Names(k, up) == IF k = 0 THEN <<>> ELSE LET x == Opt((n \div 2 ^ (k - 1)) % 2 = 1, [n |-> 0, s |-> FlagNames[k]]) IN
                IF up THEN Names(k - 1, up) \o x ELSE x \o Names(k - 1, up)
AnyOrder == Flags(Names(18, TRUE)) = C.F /\ Flags(Names(18, FALSE)) = C.F
=============================================================================
