---------------------------- MODULE TTestObject ----------------------------
(* Recorded calls of create_test, std_test, add_2_test, clear_test and        *)
(* destroy_test against TestObject.  pv: the stored p-values afterwards,      *)
(* order free; kp: the goodness-of-fit p-value of exactly the accumulated set *)
(* (computed separately), ks: what the object reports.                        *)
EXTENDS TestObject, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l = 1 /\ opt = [none |-> 0] /\ objs = <<>>
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in {a[i] : i \in 1..Len(a)} : Count(a, v) = Count(b, v)
Near(a, b) == a - b <= 1 /\ b - a <= 1
TOpt == Is("opt") /\ opt' = Ev.o /\ objs' = <<>>
TNew == Is("new") /\ Create(Ev.id, Ev.nk, Ev.ps, Ev.ts)
After(id) == LET o == objs'[id] IN
   /\ \A j \in 1..o.nk : Ev.ps[j] = Len(o.acc[j]) /\ Ev.ts[j] = o.ts
   /\ \A j \in 1..o.nk : SameBag(Ev.pv[j], o.acc[j]) /\ Near(Ev.ks[j], Ev.kp[j])
TStd == /\ Is("std")
        /\ \A i \in 1..Len(Ev.idx) : Ev.idx[i] = From(Ev.id) + i - 1
        /\ Std(Ev.id, Ev.new)
        /\ After(Ev.id)
TClear == Is("clear") /\ Clear(Ev.id)
TFree == Is("free") /\ Destroy(Ev.id)
TNext == TOpt \/ TNew \/ TStd \/ TClear \/ TFree
TraceSpec == TraceInit /\ [][TNext]_<<l, opt, objs>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
