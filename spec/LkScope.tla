-------------------------------- MODULE LkScope --------------------------------
(* The contract of scopes. Each thread has a stack of active scopes; the current scope *)
(* is always the innermost active one. A scope is active while its body runs: its      *)
(* initializer and its destructor see the enclosing scope. This module says, for every *)
(* step of a thread, what is observed: a list of entries <<kind, a, b, c>>.            *)
EXTENDS LkBase

INIT == 1   \* initializer runs: scope passed to it, current scope
PROBE == 2  \* current scope, scope that serves an allocation
BODY == 3   \* body begins: current scope, scope passed to it
GONE == 4   \* destructor runs: scope, current scope, how often the body changed it
AFTER == 5  \* a nested spawn is over: current scope, whether its result came through
CAUGHT == 6 \* a panic is caught: current scope, payload
RET == 7    \* spawn returned: current scope, result
ENVCUR == 8 \* a separate environment: its current scope, current scope of the thread

E4(k, a, b, c) == <<<<k, a, b, c>>>>

Base(k) == 100 + k
Cur(k, s) == IF s = <<>> THEN Base(k) ELSE s[Len(s)].id
Pop(s) == Sub(s, 1, Len(s) - 1)

(* A spawn inside an initializer or a destructor, when `top` is the current scope *)
Nested(t, top) ==
  E4(INIT, top, top, 0) \o E4(BODY, t, t, 0) \o E4(PROBE, t, t, 0) \o E4(GONE, t, top, 0) \o E4(AFTER, top, 1, 0)

DtorLog(f, outer) ==
  E4(GONE, f.id, outer, f.n)
  \o CASE f.d = "p" -> E4(PROBE, outer, outer, 0)
       [] f.d = "s" -> Nested(f.id + 40, outer)
       [] OTHER -> <<>>

(* i: the initializer probes, spawns itself, panics (x), or panics holding a scope (y) *)
InitLog(o, top) ==
  E4(INIT, top, top, 0)
  \o CASE o.i = "p" -> E4(PROBE, top, top, 0)
       [] o.i = "s" -> Nested(o.id + 20, top)
       [] o.i = "y" -> DtorLog([id |-> o.id, d |-> o.d, n |-> 0], top)
       [] OTHER -> <<>>

(* A panic leaves the bodies of the scopes on the stack, from the innermost on, until  *)
(* the one around which it is caught; at the latest at the base. [s: stack, lg: log]   *)
RECURSIVE Unwind(_, _, _)
Unwind(k, s, p) ==
  IF s = <<>> THEN [s |-> s, lg |-> E4(CAUGHT, Base(k), p, 0)]
  ELSE LET f == s[Len(s)] r == Pop(s) lg == DtorLog(f, Cur(k, r)) IN
       IF f.c = 1 THEN [s |-> r, lg |-> lg \o E4(CAUGHT, Cur(k, r), p, 0)]
       ELSE LET u == Unwind(k, r, p) IN [s |-> u.s, lg |-> lg \o u.lg]

(* The body of the innermost scope returns v. Its destructor may panic. *)
Return(k, s, v) ==
  IF s = <<>> THEN [s |-> s, lg |-> <<>>]
  ELSE LET f == s[Len(s)] r == Pop(s) out == Cur(k, r) lg == DtorLog(f, out) IN
       IF f.d # "x" THEN [s |-> r, lg |-> lg \o E4(RET, out, v, 0)]
       ELSE IF f.c = 1 THEN [s |-> r, lg |-> lg \o E4(CAUGHT, out, f.id + 100, 0)]
       ELSE LET u == Unwind(k, r, f.id + 100) IN [s |-> u.s, lg |-> lg \o u.lg]

RECURSIVE Quit(_, _)
Quit(k, s) ==
  IF s = <<>> THEN [s |-> s, lg |-> <<>>]
  ELSE LET r == Return(k, s, 0) IN
       IF r.s = <<>> THEN r ELSE LET q == Quit(k, r.s) IN [s |-> q.s, lg |-> r.lg \o q.lg]

(* A separate environment never affects the thread's own. *)
EnvLog(o, top) ==
  E4(ENVCUR, o.id, top, 0) \o E4(INIT, o.id, top, 0) \o E4(ENVCUR, o.id + 20, top, 0)
  \o E4(GONE, o.id + 20, top, 0) \o E4(ENVCUR, o.id, top, 0)
  \o E4(ENVCUR, o.id, top, 0) \o E4(RET, top, IF o.v = 1 THEN o.id ELSE 5, 0) \o E4(GONE, o.id, top, 0)

SSem(o, s) ==   \* s: stack of thread o.k
  LET k == o.k top == Cur(k, s) IN
  CASE o.op = "spawn" ->
         IF o.i \in {"x", "y"} THEN
           IF o.c = 1 THEN [s |-> s, lg |-> InitLog(o, top) \o E4(CAUGHT, top, o.id + 200, 0)]
           ELSE LET u == Unwind(k, s, o.id + 200) IN [s |-> u.s, lg |-> InitLog(o, top) \o u.lg]
         ELSE [s |-> Append(s, [id |-> o.id, d |-> o.d, c |-> o.c, n |-> 0]),
               lg |-> InitLog(o, top) \o E4(BODY, o.id, o.id, 0)]
    [] o.op = "ret" -> Return(k, s, o.v)
    [] o.op = "panic" -> Unwind(k, s, o.v)
    [] o.op = "quit" -> Quit(k, s)
    [] o.op = "probe" -> [s |-> s, lg |-> E4(PROBE, top, top, 0)]
    [] o.op = "bump" -> [s |-> IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)].n = @ + 1], lg |-> <<>>]
    [] o.op = "env" -> [s |-> s, lg |-> EnvLog(o, top)]
    [] OTHER -> [s |-> s, lg |-> <<>>]

SStart == [sk |-> [k \in 0..3 |-> <<>>], dead |-> FALSE]

(* Markers and selectors: [number of pairs looked at, ..] and the pairs whose equality  *)
(* is not that of what they were made for.                                              *)
MarkBad(e) == IF Len(e.num) = 3 /\ e.num[1] > 500 THEN {} ELSE {"markers"}

SJudge(h, e, st) ==
  LET m == TLCEval(SSem(e, st.sk[e.k]))
      has(ks) == \E i \in DOMAIN e.lg : e.lg[i][1] \in ks /\ (i > Len(m.lg) \/ m.lg[i] # e.lg[i])
      bad == IF st.dead THEN {}
             ELSE IF e.res = "crash" THEN {"crash"}
             ELSE IF e.op = "mk" THEN MarkBad(e)
             ELSE IF e.lg = m.lg THEN {}
             ELSE {"scope"} \cup (IF has({PROBE}) THEN {"served"} ELSE {})
  IN [bad |-> bad, st |-> [sk |-> [st.sk EXCEPT ![e.k] = m.s], dead |-> st.dead \/ bad # {}]]
=============================================================================
