------------------------------ MODULE TraceScope ------------------------------
(* Checks recorded traces against the contract in LkScope. One behaviour per trace.    *)
EXTENDS LkScope, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st
vars == <<tid, l, st>>

Init == /\ tid \in DOMAIN Traces
        /\ l = 0
        /\ st = SStart

Next == /\ l < Len(Traces[tid].ev)
        /\ LET j == SJudge(Traces[tid], Traces[tid].ev[l + 1], st) IN
           /\ IF j.bad = {} THEN TRUE ELSE PrintT(<<"BAD", tid, l + 1, j.bad>>)
           /\ st' = j.st
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
