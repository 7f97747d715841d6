------------------------------- MODULE MCProg -------------------------------
(* Small programs for a few threads that share a value through Arc or Urc: who holds   *)
(* which handles when the threads start, and what each thread does with the handles it *)
(* holds. Each is printed once; the driver runs it under all its schedules with few     *)
(* preemptions.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fam,      \* "arc" or "urc"
          PerThread, \* operations of one thread
          Total      \* operations of all threads

VARIABLES t,      \* thread whose program is being written
          hold,   \* handles of every thread: sequences of [h, k]
          mail,   \* handles sent to every thread
          cnt, tot, nh, txt
vars == <<t, hold, mail, cnt, tot, nh, txt>>

H(h, k) == [h |-> h, k |-> k]
S(x) == ToString(x)

(* Shapes: setup text and what each thread holds. *)
Give(h, to) == "m give h=" \o S(h) \o " t=" \o S(to) \o ";"
New == "m new n=1;"
Mk(k, n) == "m " \o k \o " h=1 n=" \o S(n) \o ";"
ArcShapes == {
  [x |-> New \o Mk("clone", 2) \o Give(1, 1) \o Give(2, 2), n |-> 2, a |-> <<<<H(1, "s")>>, <<H(2, "s")>>>>],
  [x |-> New \o Mk("down", 2) \o Give(1, 1) \o Give(2, 2), n |-> 2, a |-> <<<<H(1, "s")>>, <<H(2, "w")>>>>],
  [x |-> New \o Mk("env", 2) \o Give(1, 1) \o Give(2, 2), n |-> 2, a |-> <<<<H(1, "s")>>, <<H(2, "e")>>>>],
  [x |-> New \o Mk("clone", 2) \o Mk("down", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "s"), H(3, "w")>>>>],
  [x |-> New \o Mk("clone", 2) \o Mk("clone", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "s"), H(3, "s")>>>>],
  [x |-> New \o Mk("down", 2) \o Mk("down", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "w"), H(3, "w")>>>>],
  [x |-> New \o Mk("clone", 2) \o Mk("clone", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 3), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "s")>>, <<H(3, "s")>>>>],
  [x |-> New \o Mk("clone", 2) \o Mk("down", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 3), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "s")>>, <<H(3, "w")>>>>]}
UrcShapes == {
  [x |-> New \o Mk("env", 2) \o Give(1, 1) \o Give(2, 2), n |-> 2, a |-> <<<<H(1, "s")>>, <<H(2, "e")>>>>],
  [x |-> New \o Mk("down", 2) \o Mk("env", 3) \o Give(1, 1) \o Give(2, 1) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s"), H(2, "w")>>, <<H(3, "e")>>>>],
  [x |-> New \o Mk("clone", 2) \o Mk("env", 3) \o Give(1, 1) \o Give(2, 1) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s"), H(2, "s")>>, <<H(3, "e")>>>>],
  [x |-> New \o Mk("down", 2) \o Mk("env", 3) \o "m drop h=1;" \o Give(2, 1) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(2, "w")>>, <<H(3, "e")>>>>],
  [x |-> New \o Mk("env", 2) \o Mk("env", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 2), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "e"), H(3, "e")>>>>],
  [x |-> New \o Mk("env", 2) \o Mk("env", 3) \o Give(1, 1) \o Give(2, 2) \o Give(3, 3), n |-> 3,
   a |-> <<<<H(1, "s")>>, <<H(2, "e")>>, <<H(3, "e")>>>>],
  [x |-> New \o Mk("down", 2) \o Mk("env", 3) \o Mk("env", 4) \o Give(1, 1) \o Give(2, 1) \o Give(3, 2) \o Give(4, 3), n |-> 4,
   a |-> <<<<H(1, "s"), H(2, "w")>>, <<H(3, "e")>>, <<H(4, "e")>>>>]}
(* The same with the envelope of the second thread opened first. *)
Opened == {[x |-> u.x \o "2 open h=" \o S(u.a[2][1].h) \o ";", n |-> u.n, a |-> [u.a EXCEPT ![2] = <<H(@[1].h, "s")>> \o Tail(@)]] : u \in UrcShapes}
Shapes == IF Fam = "arc" THEN ArcShapes ELSE UrcShapes \cup Opened

Ops(k) ==
  IF Fam = "arc" THEN
    CASE k = "s" -> {"read", "clone", "down", "getmut", "mm", "unwrap", "drop", "sc", "wc", "env", "send"}
      [] k = "w" -> {"drop", "send"}
      [] k = "e" -> {"open", "drop", "send"}
      [] OTHER -> {"drop"}
  ELSE
    CASE k = "s" -> {"read", "clone", "down", "env", "getmut", "mm", "unwrap", "drop", "sole", "fsc", "fwc", "det"}
      [] k = "e" -> {"open", "drop", "send"}
      [] k = "f" -> {"unbox", "drop", "fsc"}
      [] k = "v" -> {"att", "drop", "send", "fsc"}
      [] OTHER -> {"drop"}

Init == \E s \in Shapes :
  /\ t = 1 /\ cnt = 0 /\ tot = 0
  /\ hold = s.a /\ nh = s.n /\ txt = s.x
  /\ mail = [i \in DOMAIN s.a |-> <<>>]

Rm(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Upd(i, op) ==
  LET q == hold[t] k == q[i].k IN
  CASE op = "drop" -> Rm(q, i)
    [] op = "send" -> Rm(q, i)
    [] op = "clone" -> Append(q, H(nh + 1, "s"))
    [] op = "down" -> Append(q, H(nh + 1, "w"))
    [] op = "env" -> Append(q, H(nh + 1, "e"))
    [] op = "open" -> [q EXCEPT ![i].k = "s"]
    [] op = "det" -> [q EXCEPT ![i].k = "f"]
    [] op = "unbox" -> [q EXCEPT ![i].k = "v"]
    [] op = "att" -> [q EXCEPT ![i].k = "s"]
    [] op = "unwrap" -> [q EXCEPT ![i].k = "V"]
    [] OTHER -> q
Makes == {"clone", "down", "env"}

Do(i, op) ==
  /\ cnt < PerThread /\ tot < Total
  /\ hold' = [hold EXCEPT ![t] = Upd(i, op)]
  /\ nh' = nh + (IF op \in Makes THEN 1 ELSE 0)
  /\ LET to == IF t = 1 THEN 2 ELSE 1 IN
     /\ mail' = IF op = "send" THEN [mail EXCEPT ![to] = Append(@, hold[t][i])] ELSE mail
     /\ txt' = txt \o S(t) \o " " \o op \o " h=" \o S(hold[t][i].h)
               \o (IF op \in Makes THEN " n=" \o S(nh + 1) ELSE "")
               \o (IF op = "send" THEN " t=" \o S(to) ELSE "") \o ";"
  /\ cnt' = cnt + 1 /\ tot' = tot + 1 /\ UNCHANGED t

Recv ==
  /\ cnt < PerThread /\ tot < Total /\ mail[t] # <<>>
  /\ hold' = [hold EXCEPT ![t] = Append(@, Head(mail[t]))]
  /\ mail' = [mail EXCEPT ![t] = Tail(@)]
  /\ txt' = txt \o S(t) \o " recv;"
  /\ cnt' = cnt + 1 /\ tot' = tot + 1 /\ UNCHANGED <<t, nh>>

NextThread ==
  /\ t < Len(hold)
  /\ t' = t + 1 /\ cnt' = 0 /\ UNCHANGED <<hold, mail, tot, nh, txt>>

Finish ==
  /\ t = Len(hold) /\ tot > 0
  /\ PrintT("SC|" \o S(Len(hold)) \o "|" \o txt)
  /\ t' = Len(hold) + 1 /\ UNCHANGED <<hold, mail, cnt, tot, nh, txt>>

Next == \/ t <= Len(hold) /\ (NextThread \/ Finish \/ Recv \/ \E i \in DOMAIN hold[t] : \E op \in Ops(hold[t][i].k) : Do(i, op))

Spec == Init /\ [][Next]_vars
(* Everyone's handles are distinct. *)
Distinct == \A a, b \in DOMAIN hold : \A i \in DOMAIN hold[a], j \in DOMAIN hold[b] :
              (a # b \/ i # j) => hold[a][i].h # hold[b][j].h
=============================================================================
