----------------------------- MODULE TraceBorrow ----------------------------
(* Checks what the compiler made of programs against the contract in LkBorrow. *)
EXTENDS LkBorrow, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l
vars == <<tid, l>>

Init == tid \in DOMAIN Traces /\ l = 0

Next == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1]
               bad == BJudge(Traces[tid].con, e.steps, e.res = "taken") IN
           IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", tid, l + 1, bad>>)
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
