------------------------------- MODULE LkConc -------------------------------
(* Contract of the counted pointers that are shared between threads: Arc and Urc.    *)
(* The state says which handles exist, to what they belong, which values and blocks   *)
(* are alive, and what every thread has seen of the others (the happens-before of the *)
(* C11 memory model, as vector clocks). Every event of a recorded execution is judged *)
(* against it.                                                                        *)
(*                                                                                    *)
(* Handles: k = s strong, w weak, e envelope, f detached group in its own block,      *)
(*   v detached group as a plain value; V a value taken out (no handle at all).       *)
(*   s = h held, c may be gone by now (an operation that can give it up is under       *)
(*   way), n may exist by now (being created), v owned by value `ow`, - none.          *)
(* An object is named by the block its value lives in. A group is the set of handles   *)
(* for one object that share their own bookkeeping block (Arc: all of them).           *)
EXTENDS LkBase

Strong == {"s", "e", "f", "v"}
NoH == [k |-> "-", o |-> 0, g |-> 0, s |-> "-", t |-> 0, ow |-> 0]
Idle == [f |-> "", h |-> 0, n |-> 0, nv |-> {}, al |-> {}, oth |-> FALSE, ostr |-> FALSE,
         lo |-> 0, hi |-> 0, rd |-> -1]

(* --- clocks *)
Join(a, b) == TLCEval([i \in DOMAIN a |-> MaxOf(a[i], b[i])])
Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]

CStart(tr) ==
  LET z == TLCEval([i \in 1..(tr.n + 1) |-> 0]) IN
  [dead |-> FALSE, z |-> z,
   hs |-> TLCEval([h \in 1..tr.nh |-> NoH]),
   mb |-> TLCEval([h \in 1..tr.nh |-> z]),
   bl |-> <<>>, va |-> <<>>, lc |-> <<>>,
   vc |-> TLCEval([i \in 1..(tr.n + 1) |-> z]),
   rf |-> TLCEval([i \in 1..(tr.n + 1) |-> z]),
   pa |-> TLCEval([i \in 1..(tr.n + 1) |-> z]),
   pc |-> TLCEval([i \in 1..(tr.n + 1) |-> Idle])]

(* --- handles *)
Definite == {"h", "v"}
Possible == {"h", "v", "c", "n"}
DefOf(hs, o, ks) == {h \in DOMAIN hs : hs[h].o = o /\ hs[h].s \in Definite /\ hs[h].k \in ks}
PosOf(hs, o, ks) == {h \in DOMAIN hs : hs[h].o = o /\ hs[h].s \in Possible /\ hs[h].k \in ks}
AnyK == Strong \cup {"w"}
GrpDef(hs, g, ks) == {h \in DOMAIN hs : hs[h].g = g /\ hs[h].s \in Definite /\ hs[h].k \in ks}
GrpPos(hs, g, ks) == {h \in DOMAIN hs : hs[h].g = g /\ hs[h].s \in Possible /\ hs[h].k \in ks}
Groups(hs, H) == {hs[h].g : h \in H}

(* What a counting operation may report right now: <<lowest, highest>>. *)
Span(f, h, hs) ==
  LET o == hs[h].o IN
  CASE f = "sc" -> <<Cardinality(DefOf(hs, o, Strong)), Cardinality(PosOf(hs, o, Strong))>>
    [] f = "wc" -> <<Cardinality(DefOf(hs, o, {"w"})), Cardinality(PosOf(hs, o, {"w"}))>>
    [] f = "sole" -> <<Cardinality(Groups(hs, DefOf(hs, o, Strong))), Cardinality(Groups(hs, PosOf(hs, o, Strong)))>>
    [] OTHER -> <<0, 0>>
Counting == {"sc", "wc", "sole"}
(* Operations under way see every change of the handles. *)
Seen(pc, hs) ==
  IF \A i \in DOMAIN pc : pc[i].f \notin Counting THEN pc
  ELSE TLCEval([i \in DOMAIN pc |->
    IF pc[i].f \in Counting
    THEN LET s == Span(pc[i].f, pc[i].h, hs) IN
         [pc[i] EXCEPT !.lo = MinOf(@, s[1]), !.hi = MaxOf(@, s[2])]
    ELSE pc[i]])

(* --- accesses *)
LiveB(st, b) == b \in DOMAIN st.bl /\ st.bl[b].live
Touched(st, b) == b = 0 \/ LiveB(st, b)
Tick(st, i) == [st EXCEPT !.vc[i][i] = @ + 1]
AccB(st, b, i) == IF b \in DOMAIN st.bl THEN [st EXCEPT !.bl[b].acc[i] = st.vc[i][i]] ELSE st
KnownV(st, v) == v \in DOMAIN st.va

Consuming == {"drop", "unwrap", "mm"}
Creating == {"clone", "down", "env"}

Call(tr, e, st) ==
  LET i == e.t + 1 IN
  IF e.f \in {"new", "udrop"} THEN
    [bad |-> {}, st |-> [st EXCEPT !.pc[i] = [Idle EXCEPT !.f = e.f, !.h = e.h, !.n = e.n]]]
  ELSE
  LET H == st.hs[e.h]
      others == PosOf(st.hs, H.o, AnyK) \ {e.h}
      ostr == PosOf(st.hs, H.o, Strong) \ {e.h}
      hs1 == IF e.f \in Consuming THEN [st.hs EXCEPT ![e.h].s = "c", ![e.h].t = e.t]
             ELSE IF e.f \in Creating
             THEN [st.hs EXCEPT ![e.n] = [k |-> CASE e.f = "clone" -> "s" [] e.f = "down" -> "w" [] OTHER -> "e",
                                          o |-> H.o, g |-> IF e.f = "env" /\ tr.fam = "urc" THEN 2000 + e.n ELSE H.g,
                                          s |-> "n", t |-> e.t, ow |-> 0]]
             ELSE st.hs
      sp == Span(e.f, e.h, st.hs)
      p == [Idle EXCEPT !.f = e.f, !.h = e.h, !.n = e.n, !.oth = others # {}, !.ostr = ostr # {},
                        !.lo = sp[1], !.hi = sp[2]]
  IN [bad |-> {}, st |-> [st EXCEPT !.hs = hs1, !.pc = Seen([st.pc EXCEPT ![i] = p], hs1)]]

(* --- memory *)
Alloc(e, st) ==
  LET i == e.t + 1 IN
  [bad |-> IF e.b = Len(st.bl) + 1 THEN {} ELSE {"garbage"},
   st |-> [st EXCEPT !.bl = Append(@, [live |-> TRUE, k |-> "u", ow |-> 0, acc |-> st.z]),
                     !.pc[i].al = @ \cup {e.b}]]

Free(e, st) ==
  LET i == e.t + 1 IN
  IF ~LiveB(st, e.b) \/ e.ok # 1 THEN [bad |-> {"free"}, st |-> st]
  ELSE
  LET B == st.bl[e.b]
      P == st.pc[i]
      lost == \E v \in DOMAIN st.va : st.va[v].s = "a" /\ st.va[v].o = e.b
                /\ ~\E j \in DOMAIN st.pc : st.pc[j].f \in {"mm", "unwrap"} /\ st.hs[st.pc[j].h].o = e.b
      bad == (CASE B.k = "s" -> IF DefOf(st.hs, e.b, AnyK) # {} \/ lost THEN {"free"} ELSE {}
                [] B.k = "o" -> IF GrpDef(st.hs, B.ow, AnyK) \ (IF P.f = "unbox" THEN {P.h} ELSE {}) # {} THEN {"free"} ELSE {}
                [] OTHER -> IF e.b \in P.al THEN {} ELSE {"free"})
             \cup (IF B.k = "s" /\ ~Leq(B.acc, st.vc[i]) THEN {"hb"} ELSE {})
  IN [bad |-> bad, st |-> [st EXCEPT !.bl[e.b].live = FALSE]]

(* --- atomics *)
Atomic(e, st) ==
  LET i == e.t + 1
      lc0 == IF e.l <= Len(st.lc) THEN st.lc ELSE Append(st.lc, st.z)
      L == lc0[e.l]
      reads == e.k # "st"
      vc1 == IF reads /\ e.a = 1 THEN Join(st.vc[i], L) ELSE st.vc[i]
      pa1 == IF reads /\ e.a = 0 THEN Join(st.pa[i], L) ELSE st.pa[i]
      w == IF e.z = 1 THEN vc1 ELSE st.rf[i]
      lc1 == CASE e.k = "st" -> [lc0 EXCEPT ![e.l] = w]
               [] e.k = "rmw" -> [lc0 EXCEPT ![e.l] = Join(L, w)]
               [] OTHER -> lc0
      st1 == [st EXCEPT !.vc[i] = vc1, !.pa[i] = pa1, !.lc = lc1]
  IN [bad |-> IF Touched(st, e.b) THEN {} ELSE {"uaf"}, st |-> AccB(st1, e.b, i)]

FenceEv(e, st) ==
  LET i == e.t + 1
      vc1 == IF e.a = 1 THEN Join(st.vc[i], st.pa[i]) ELSE st.vc[i]
  IN [bad |-> {}, st |-> [st EXCEPT !.vc[i] = vc1, !.rf[i] = IF e.z = 1 THEN vc1 ELSE @]]

(* --- values *)
NewVal(e, st) ==
  LET i == e.t + 1 IN
  [bad |-> IF e.v = Len(st.va) + 1 THEN {} ELSE {"garbage"},
   st |-> [st EXCEPT !.va = Append(@, [s |-> "n", o |-> 0, g |-> 0,
                       acc |-> [st.z EXCEPT ![i] = st.vc[i][i]], wr |-> <<i, st.vc[i][i]>>]),
                     !.pc[i].nv = @ \cup {e.v}]]

CopyVal(e, st) ==
  LET i == e.t + 1 IN
  IF ~KnownV(st, e.v) THEN [bad |-> {"garbage"}, st |-> st]
  ELSE [bad |-> IF st.pc[i].rd = e.g THEN {} ELSE {"value"}, st |-> [st EXCEPT !.va[e.v].g = e.g]]

Visible(st, v, i) == st.va[v].wr[2] <= st.vc[i][st.va[v].wr[1]]

ReadVal(e, st) ==
  LET i == e.t + 1 IN
  IF ~KnownV(st, e.v) THEN [bad |-> {"garbage"}, st |-> st]
  ELSE
  LET V == st.va[e.v]
      bad == (IF V.s \in {"a", "n"} THEN {} ELSE {"uaf"})
             \cup (IF Touched(st, e.b) THEN {} ELSE {"uaf"})
             \cup (IF V.g = e.g THEN {} ELSE {"value"})
             \cup (IF Visible(st, e.v, i) THEN {} ELSE {"hb"})
  IN [bad |-> bad, st |-> AccB([st EXCEPT !.va[e.v].acc[i] = st.vc[i][i], !.pc[i].rd = e.g], e.b, i)]

WriteVal(e, st) ==
  LET i == e.t + 1 IN
  IF ~KnownV(st, e.v) THEN [bad |-> {"garbage"}, st |-> st]
  ELSE
  LET V == st.va[e.v]
      P == st.pc[i]
      o == st.hs[P.h].o
      old == V.s = "a" /\ V.o = o
      new == P.f = "mm" /\ e.v \in P.nv
      others == DefOf(st.hs, o, IF P.f = "mm" /\ e.b # o THEN Strong ELSE AnyK) \ {P.h}
      bad == (IF V.s \in {"a", "n"} THEN {} ELSE {"uaf"})
             \cup (IF Touched(st, e.b) THEN {} ELSE {"uaf"})
             \cup (IF old \/ new THEN {} ELSE {"excl"})
             \cup (IF old /\ others # {} THEN {"excl"} ELSE {})
             \cup (IF e.g = V.g + 1 THEN {} ELSE {"value"})
             \cup (IF Leq(V.acc, st.vc[i]) THEN {} ELSE {"hb"})
  IN [bad |-> bad,
      st |-> AccB([st EXCEPT !.va[e.v].acc[i] = st.vc[i][i], !.va[e.v].wr = <<i, st.vc[i][i]>>,
                             !.va[e.v].g = e.g], e.b, i)]

DropVal(e, st) ==
  LET i == e.t + 1 IN
  IF ~KnownV(st, e.v) THEN [bad |-> {"twice"}, st |-> st]
  ELSE
  LET V == st.va[e.v]
      bad == (CASE V.s = "d" -> {"twice"}
                [] V.s = "a" -> IF DefOf(st.hs, V.o, Strong) # {} THEN {"early"} ELSE {}
                [] V.s = "o" -> IF st.pc[i].f = "udrop" /\ st.pc[i].n = e.v THEN {} ELSE {"early"}
                [] OTHER -> IF e.v \in st.pc[i].nv THEN {} ELSE {"early"})
             \cup (IF Touched(st, e.b) THEN {} ELSE {"uaf"})
             \cup (IF V.g = e.g THEN {} ELSE {"value"})
             \cup (IF Leq(V.acc, st.vc[i]) THEN {} ELSE {"hb"})
      hs1 == TLCEval([h \in DOMAIN st.hs |->
               IF st.hs[h].s = "v" /\ st.hs[h].ow = e.v THEN [st.hs[h] EXCEPT !.s = "c", !.t = e.t] ELSE st.hs[h]])
  IN [bad |-> bad,
      st |-> AccB([st EXCEPT !.va[e.v].acc[i] = st.vc[i][i], !.va[e.v].s = "d", !.hs = hs1,
                             !.pc = Seen(@, hs1)], e.b, i)]

(* --- the end of an operation *)
(* Nothing is left behind without somebody who will release it. *)
Settled(st) ==
  (IF \E v \in DOMAIN st.va : st.va[v].s = "a" /\ PosOf(st.hs, st.va[v].o, Strong) = {} THEN {"lost"} ELSE {})
  \cup (IF \E b \in DOMAIN st.bl : st.bl[b].live /\
            CASE st.bl[b].k = "s" -> PosOf(st.hs, b, AnyK) = {}
              [] st.bl[b].k = "o" -> GrpPos(st.hs, st.bl[b].ow, AnyK) = {}
              [] OTHER -> \A j \in DOMAIN st.pc : b \notin st.pc[j].al
        THEN {"leak"} ELSE {})

(* Handle h, its group and the blocks of the operation after object o' = b was made. *)
Own(st, al, but, g) ==
  TLCEval([b \in DOMAIN st.bl |->
    IF b \in al \ {but} /\ st.bl[b].live THEN [st.bl[b] EXCEPT !.k = "o", !.ow = g]
    ELSE IF b = but /\ b \in al THEN [st.bl[b] EXCEPT !.k = "s"] ELSE st.bl[b]])

Ret(tr, e, st) ==
  LET i == e.t + 1
      P == st.pc[i]
      h == e.h
      H == st.hs[IF h = 0 THEN 1 ELSE h]
      o == H.o
      (* what this thread gave up is gone *)
      gone(keep) == TLCEval([x \in DOMAIN st.hs |->
                      IF x = keep THEN [st.hs[x] EXCEPT !.s = "h"]
                      ELSE IF st.hs[x].s = "c" /\ st.hs[x].t = e.t THEN NoH ELSE st.hs[x]])
      others(ks) == DefOf(st.hs, o, ks) \ {h}
      fresh == e.v \in P.nv /\ st.va[e.v].s = "n"
      placed == e.b \in P.al /\ LiveB(st, e.b)
      R == (* <<bad, state>> *)
        CASE e.r = "panic" -> <<{"panic"}, st>>
          [] e.f = "new" ->
               IF ~fresh \/ ~placed THEN <<{"garbage"}, st>>
               ELSE <<{}, [st EXCEPT !.va[e.v].s = "a", !.va[e.v].o = e.b,
                                     !.hs[e.n] = [k |-> "s", o |-> e.b, g |-> 1000 + e.b, s |-> "h", t |-> e.t, ow |-> 0],
                                     !.bl = Own(st, P.al, e.b, 1000 + e.b)]>>
          [] e.f \in {"clone", "down", "env"} ->
               <<{}, [st EXCEPT !.hs[e.n].s = "h", !.bl = Own(st, P.al, 0, st.hs[e.n].g)]>>
          [] e.f = "open" -> <<{}, [st EXCEPT !.hs[h].k = "s", !.bl = Own(st, P.al, 0, H.g)]>>
          [] e.f = "read" ->
               <<IF KnownV(st, e.v) /\ st.va[e.v].s = "a" /\ st.va[e.v].o = o /\ e.b = o THEN {} ELSE {"value"}, st>>
          [] e.f = "getmut" ->
               IF e.r = "some"
               THEN <<(IF KnownV(st, e.v) /\ st.va[e.v].s = "a" /\ st.va[e.v].o = o /\ e.b = o THEN {} ELSE {"value"})
                      \cup (IF others(AnyK) # {} THEN {"excl"} ELSE {}), st>>
               ELSE <<IF P.oth THEN {} ELSE {"excl"}, st>>
          [] e.f = "mm" ->
               IF ~KnownV(st, e.v) THEN <<{"garbage"}, st>>
               ELSE IF st.va[e.v].s = "a" /\ st.va[e.v].o = o /\ e.b = o
               THEN <<IF others(AnyK) # {} THEN {"isolate"} ELSE {}, [st EXCEPT !.hs = gone(h)]>>
               ELSE IF ~placed \/ (st.va[e.v].s # "n" /\ (st.va[e.v].s # "a" \/ st.va[e.v].o # o))
               THEN <<{"isolate"}, [st EXCEPT !.hs = gone(h)]>>
               ELSE (* moved or cloned to a new place *)
                 LET moved == st.va[e.v].s = "a" IN
                 <<IF moved THEN (IF others(Strong) # {} \/ ~P.oth THEN {"isolate"} ELSE {})
                   ELSE IF ~P.ostr \/ ~fresh THEN {"isolate"} ELSE {},
                   [st EXCEPT !.va[e.v].s = "a", !.va[e.v].o = e.b,
                              !.hs = [gone(h) EXCEPT ![h] = [k |-> "s", o |-> e.b, g |-> 1000 + e.b, s |-> "h", t |-> e.t, ow |-> 0]],
                              !.bl = Own(st, P.al, e.b, 1000 + e.b)]>>
          [] e.f = "unwrap" ->
               IF e.r = "err" THEN <<IF P.ostr THEN {} ELSE {"unwrap"}, [st EXCEPT !.hs = gone(h)]>>
               ELSE IF ~(KnownV(st, e.v) /\ st.va[e.v].s = "a" /\ st.va[e.v].o = o) THEN <<{"unwrap"}, st>>
               ELSE <<(IF others(Strong) # {} THEN {"unwrap"} ELSE {})
                      \cup (IF st.va[e.v].g = e.x THEN {} ELSE {"value"})
                      \cup (IF Leq(st.va[e.v].acc, st.vc[i]) THEN {} ELSE {"hb"}),
                      [st EXCEPT !.va[e.v].s = "o", !.va[e.v].o = 0, !.va[e.v].acc[i] = st.vc[i][i],
                                 !.hs = [gone(0) EXCEPT ![h] = [NoH EXCEPT !.k = "V", !.s = "x", !.t = e.t]]]>>
          [] e.f = "drop" -> <<{}, [st EXCEPT !.hs = gone(0)]>>
          [] e.f = "udrop" ->
               <<IF KnownV(st, e.n) /\ st.va[e.n].s = "d" THEN {} ELSE {"lost"}, [st EXCEPT !.hs = [gone(0) EXCEPT ![h] = NoH]]>>
          [] e.f \in {"sc", "wc"} -> <<IF P.lo <= e.x /\ e.x <= P.hi THEN {} ELSE {"count"}, st>>
          [] e.f = "sole" ->
               <<IF (e.x = 1 /\ P.lo <= 1) \/ (e.x = 0 /\ P.hi > 1) THEN {} ELSE {"sole"}, st>>
          [] e.f = "fsc" -> <<IF e.x = Cardinality(GrpDef(st.hs, H.g, Strong)) THEN {} ELSE {"group"}, st>>
          [] e.f = "fwc" -> <<IF e.x = Cardinality(GrpDef(st.hs, H.g, {"w"})) THEN {} ELSE {"group"}, st>>
          [] e.f = "det" ->
               LET can == GrpDef(st.hs, H.g, AnyK) = {h} IN
               IF e.r = "ok" THEN <<IF can THEN {} ELSE {"fence"}, [st EXCEPT !.hs[h].k = "f"]>>
               ELSE <<IF can THEN {"fence"} ELSE {}, st>>
          [] e.f = "unbox" ->
               <<IF \E b \in DOMAIN st.bl : st.bl[b].live /\ st.bl[b].k = "o" /\ st.bl[b].ow = H.g THEN {"leak"} ELSE {},
                 [st EXCEPT !.hs[h].k = "v"]>>
          [] e.f = "att" ->
               <<IF KnownV(st, e.v) /\ st.va[e.v].s = "a" /\ st.va[e.v].o = o /\ e.b = o THEN {} ELSE {"fence"},
                 [st EXCEPT !.hs[h].k = "s", !.bl = Own(st, P.al, 0, H.g)]>>
          [] OTHER -> <<{"garbage"}, st>>
      (* values made on the way belong to somebody or were destroyed *)
      st1 == [R[2] EXCEPT !.pc = Seen([@ EXCEPT ![i] = Idle], R[2].hs)]
      left == \E v \in P.nv : st1.va[v].s = "n"
  IN [bad |-> R[1] \cup (IF R[1] # {} THEN {} ELSE Settled(st1) \cup IF left THEN {"lost"} ELSE {}), st |-> st1]

Step(tr, e, st0) ==
  LET st == Tick(st0, e.t + 1) i == e.t + 1 IN
  CASE e.op = "call" -> Call(tr, e, st)
    [] e.op = "ret" -> Ret(tr, e, st)
    [] e.op = "at" -> Atomic(e, st)
    [] e.op = "fe" -> FenceEv(e, st)
    [] e.op = "al" -> Alloc(e, st)
    [] e.op = "fr" -> Free(e, st)
    [] e.op = "vn" -> NewVal(e, st)
    [] e.op = "vg" -> CopyVal(e, st)
    [] e.op = "vr" -> ReadVal(e, st)
    [] e.op = "vw" -> WriteVal(e, st)
    [] e.op = "vd" -> DropVal(e, st)
    [] e.op = "own" -> [bad |-> {}, st |-> [st EXCEPT !.hs[e.h].s = "v", !.hs[e.h].ow = e.v]]
    [] e.op = "snd" -> [bad |-> {}, st |-> [st EXCEPT !.mb[e.h] = st.vc[i]]]
    [] e.op = "rcv" -> [bad |-> {}, st |-> [st EXCEPT !.vc[i] = Join(@, st.mb[e.h]), !.hs[e.h].t = e.t]]
    [] e.op = "spawn" -> [bad |-> {}, st |-> [st EXCEPT !.vc = TLCEval([j \in DOMAIN @ |-> Join(@[j], st.vc[1])])]]
    [] e.op = "join" ->
         LET RECURSIVE all(_)
             all(j) == IF j = 0 THEN st.z ELSE Join(st.vc[j], all(j - 1))
         IN [bad |-> {}, st |-> [st EXCEPT !.vc[1] = all(Len(st.vc))]]
    [] e.op = "end" -> [bad |-> Settled(st), st |-> st]
    [] e.op = "stuck" -> [bad |-> {"stuck"}, st |-> st]
    [] OTHER -> [bad |-> {"crash"}, st |-> st]

(* What was observed can be followed further only if the picture still makes sense. *)
Mild == {"hb", "count", "sole", "value"}

CJudge(tr, e, st) ==
  IF st.dead THEN [bad |-> IF e.op \in {"stuck", "crash"} THEN {e.op} ELSE {}, st |-> st]
  ELSE LET r == Step(tr, e, st) IN
       IF r.bad \subseteq Mild THEN r ELSE [r EXCEPT !.st = [st EXCEPT !.dead = TRUE]]
=============================================================================
