------------------------------ MODULE TraceSeq ------------------------------
(* Checks recorded traces against the contract in LkSeq. One behaviour per trace. *)
EXTENDS LkSeq, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, S, G
vars == <<tid, l, S, G>>

Init == /\ tid \in DOMAIN Traces
        /\ l = 0
        /\ S = Start
        /\ G = StartG

Next == /\ l < Len(Traces[tid].ev)
        /\ LET j == Judge(Traces[tid], Traces[tid].ev[l + 1], S, G) IN
           /\ IF j.bad = {} THEN TRUE ELSE PrintT(<<"BAD", tid, l + 1, j.bad>>)
           /\ S' = j.S
           /\ G' = j.G
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
