----------------------------- MODULE TraceTypes -----------------------------
(* Checks what was recorded of types against the contract in LkTypes.                    *)
EXTENDS LkTypes, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, st     \* st: what is harmless for, and what was granted to, the type so far
vars == <<tid, l, st>>

Fl(e) == [send |-> e.send = 1, sync |-> e.sync = 1, env |-> e.env = 1, con |-> e.con]

Init == /\ tid \in DOMAIN Traces
        /\ l = 0
        /\ st = [i |-> Bases[Traces[tid].base], g |-> <<>>]

Next == /\ l < Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l + 1] f == Fl(e)
               bad == (IF e.res = "ok" THEN {} ELSE {e.res})
                      \cup (IF e.op = "base"
                            THEN (IF f.send = st.i.own /\ f.sync = st.i.see THEN {} ELSE {"base"})
                            ELSE TJudge(e.con, st.i, st.g, f)) IN
           /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", tid, l + 1, bad>>)
           /\ st' = [i |-> IF e.op = "base" THEN st.i ELSE Harmless(e.con, st.i), g |-> f]
        /\ l' = l + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
