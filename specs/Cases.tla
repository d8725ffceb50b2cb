------------------------------- MODULE Cases -------------------------------
(* Functional conformance: one state per recorded case of the real code.     *)
(* A module that extends this one defines Ok(c) for a case record c and       *)
(* CaseOk == k = 0 \/ Ok(Data[k]).                                            *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Data == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE k
CaseInit == k = 0
CaseNext == k < Len(Data) /\ k' = k + 1
CaseSpec == CaseInit /\ [][CaseNext]_k
AllCases == TLCGet("stats").diameter - 1 = Len(Data)
=============================================================================
