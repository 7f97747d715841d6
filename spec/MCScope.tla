-------------------------------- MODULE MCScope --------------------------------
(* The algorithm of Env::spawn: one register per thread, `cur`, saved by every spawn in *)
(* its own frame and put back by a guard. TLC runs every step in every nest up to a     *)
(* depth and checks that the register always names the innermost active scope and that  *)
(* what is observed is what the contract of LkScope says.                               *)
EXTENDS LkScope

CONSTANTS Depth0, Depth1, Emit

VARIABLES cur, fr, st, hist, last
vars == <<cur, fr, st, hist, last>>

K == {0, 1}

(* A machine: [c: the register, f: frames <<[id, d, c, n, prev]>>, lg: log] *)
Put(m, k, a, b, c) == [m EXCEPT !.lg = Append(@, <<k, a, b, c>>)]
(* log entries whose content is read from the register *)
PInit(m) == Put(m, INIT, m.c, m.c, 0)
PProbe(m) == Put(m, PROBE, m.c, m.c, 0)
PBody(m, t) == Put(m, BODY, m.c, t, 0)
PNest(m, t) ==
  LET prev == m.c
      a == PInit(m)
      b == PProbe(PBody([a EXCEPT !.c = t], t))
      c == [b EXCEPT !.c = prev]                       \* the guard
      d == Put(c, GONE, t, c.c, 0) IN
  Put(d, AFTER, d.c, 1, 0)
PGone(m, id, d, n) ==
  LET a == Put(m, GONE, id, m.c, n) IN
  CASE d = "p" -> PProbe(a) [] d = "s" -> PNest(a, id + 40) [] OTHER -> a

(* Leaving the innermost frame: guard, then the scope value is dropped *)
Leave(m) ==
  LET f == m.f[Len(m.f)] IN
  PGone([m EXCEPT !.c = f.prev, !.f = Front(@, Len(@) - 1)], f.id, f.d, f.n)
RECURSIVE PUnwind(_, _)
PUnwind(m, p) ==
  IF m.f = <<>> THEN Put(m, CAUGHT, m.c, p, 0)
  ELSE LET f == m.f[Len(m.f)] x == Leave(m) IN
       IF f.c = 1 THEN Put(x, CAUGHT, x.c, p, 0) ELSE PUnwind(x, p)
PReturn(m, v) ==
  IF m.f = <<>> THEN m
  ELSE LET f == m.f[Len(m.f)] x == Leave(m) IN
       IF f.d # "x" THEN Put(x, RET, x.c, v, 0)
       ELSE IF f.c = 1 THEN Put(x, CAUGHT, x.c, f.id + 100, 0) ELSE PUnwind(x, f.id + 100)
PSpawn(m, o) ==
  LET prev == m.c
      a == PInit(m)
      b == CASE o.i = "p" -> PProbe(a) [] o.i = "s" -> PNest(a, o.id + 20)
             [] o.i = "y" -> PGone(a, o.id, o.d, 0) [] OTHER -> a IN
  IF o.i \in {"x", "y"} THEN IF o.c = 1 THEN Put(b, CAUGHT, b.c, o.id + 200, 0) ELSE PUnwind(b, o.id + 200)
  ELSE PBody([b EXCEPT !.c = o.id, !.f = Append(@, [id |-> o.id, d |-> o.d, c |-> o.c, n |-> 0, prev |-> prev])], o.id)

Exec(o) ==
  LET m == [c |-> cur[o.k], f |-> fr[o.k], lg |-> <<>>] IN
  CASE o.op = "spawn" -> PSpawn(m, o)
    [] o.op = "ret" -> PReturn(m, o.v)
    [] o.op = "panic" -> PUnwind(m, o.v)
    [] o.op = "probe" -> PProbe(m)
    [] o.op = "bump" -> IF m.f = <<>> THEN m ELSE [m EXCEPT !.f[Len(m.f)].n = @ + 1]

O(op, k) == [op |-> op, k |-> k, id |-> 0, i |-> "n", d |-> "n", c |-> 0, v |-> 0]
Line(o) == o.op \o " k=" \o ToString(o.k)
  \o (IF o.op = "spawn" THEN " id=" \o ToString(o.id) \o " i=" \o o.i \o " d=" \o o.d \o " c=" \o ToString(o.c) ELSE "")
  \o (IF o.v # 0 THEN " v=" \o ToString(o.v) ELSE "")

Depth(k) == IF k = 0 THEN Depth0 ELSE Depth1
Ops == UNION {
  {O("probe", k)}
  \cup (IF fr[k] = <<>> THEN {} ELSE {[O("ret", k) EXCEPT !.v = 7], [O("panic", k) EXCEPT !.v = 9]}
          \cup (IF fr[k][Len(fr[k])].n = 0 THEN {O("bump", k)} ELSE {}))
  \cup (IF Len(fr[k]) >= Depth(k) THEN {}
        ELSE {[O("spawn", k) EXCEPT !.id = 1 + Len(fr[k]) + 6 * k, !.i = i, !.d = d, !.c = c] :
                i \in {"n", "p", "s", "x", "y"}, d \in {"p", "s", "x"}, c \in {0, 1}})
  : k \in K}

Init == /\ cur = [k \in K |-> Base(k)] /\ fr = [k \in K |-> <<>>] /\ st = SStart /\ hist = "" /\ last = {}

Next == \E o \in Ops :
  LET m == TLCEval(Exec(o))
      e == o @@ [lg |-> m.lg, num |-> <<>>, res |-> "ok"]
      j == TLCEval(SJudge([n |-> 2], e, st))
      hi == hist \o ";" \o Line(o) IN
  /\ cur' = [cur EXCEPT ![o.k] = m.c] /\ fr' = TLCEval([fr EXCEPT ![o.k] = m.f])
  /\ st' = j.st /\ last' = j.bad
  /\ hist' = hi
  /\ Emit => PrintT("SC|" \o hi)
Spec == Init /\ [][Next]_vars

View == <<cur, fr, last>>

Accepted == last = {}
Innermost == \A k \in K : cur[k] = IF fr[k] = <<>> THEN Base(k) ELSE fr[k][Len(fr[k])].id
Saved == \A k \in K : \A i \in DOMAIN fr[k] : fr[k][i].prev = IF i = 1 THEN Base(k) ELSE fr[k][i - 1].id
=============================================================================
