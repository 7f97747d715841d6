-------------------------------- MODULE MCRc --------------------------------
(* The counting algorithms of Rc, Arc and Urc, run by one thread on an abstract       *)
(* memory: cells (RcBox, ArcInner, Master) and groups (Fence) with their counters.    *)
(* Destructors run as tasks, so values may own further handles. Every operation       *)
(* produces the event the driver of the real code records; TLC explores all states    *)
(* reachable in small bounds, checks that the contract (LkRc) accepts every event and *)
(* that no freed memory is touched, and prints the history of every transition, which *)
(* is then replayed into the real code.                                               *)
EXTENDS LkRc, IOUtils

CONSTANTS Fams, NS, Depth, Extra, Emit

VARIABLES fam, x, st, nxt, hist, depth, last
vars == <<fam, x, st, nxt, hist, depth, last>>

(* x: sl slots, nd kids of alive values, ce: c -> [s, w, u, mem], gr: g -> [s, w, mem, c], *)
(* n last identity of memory, dr, lg, rq: effects of the current step, uaf: touched freed  *)
X0 == [sl |-> [i \in RSLOTS |-> NoH], nd |-> <<>>, ce |-> <<>>, gr |-> <<>>, n |-> 0,
       dr |-> <<>>, lg |-> <<>>, rq |-> <<>>, uaf |-> FALSE]

Rq(k, b) == [k |-> k, b |-> b, a |-> 1, s |-> 8, al |-> 8, b2 |-> 0, s2 |-> 0, m |-> 0, t |-> 0]

(* ------------------------------------------------------------------ tasks        *)
T(k, id) == [k |-> k, id |-> id, h |-> NoH]
TDrop(h) == [k |-> "drop", id |-> 0, h |-> h]

Touch(y, c) == IF y.ce[c].mem THEN y ELSE [y EXCEPT !.uaf = TRUE]
TouchG(y, g) == IF y.gr[g].mem THEN y ELSE [y EXCEPT !.uaf = TRUE]
FreeC(y, c) == [Touch(y, c) EXCEPT !.ce[c].mem = FALSE, !.rq = Append(@, Rq("d", c))]
FreeG(y, g) == [TouchG(y, g) EXCEPT !.gr[g].mem = FALSE, !.rq = Append(@, Rq("d", g))]

Saw(y, k) ==   \* what the destructor of an owner sees of a handle it owns
  IF k.k = "S" THEN <<1, y.ce[k.c].u, IF fam = "u" THEN y.gr[k.g].s ELSE y.ce[k.c].s>>
  ELSE <<2, IF fam = "r" /\ k.c # 0 /\ y.ce[k.c].s > 0 THEN y.ce[k.c].u ELSE 0>>
RECURSIVE SawAll(_, _)
SawAll(y, ks) == IF ks = <<>> THEN <<>> ELSE Saw(y, Head(ks)) \o SawAll(y, Tail(ks))

RECURSIVE Run(_, _)
Run(y, ts) ==
  IF ts = <<>> THEN y
  ELSE
  LET t == Head(ts) r == Tail(ts) c == t.h.c g == t.h.g IN
  CASE t.k = "drop" /\ t.h.k = "-" -> Run(y, r)
    [] t.k = "drop" /\ t.h.k = "V" -> Run(y, <<T("kill", t.h.u)>> \o r)
    [] t.k = "drop" /\ t.h.k = "B" -> Run(Touch(y, c), <<T("kill", y.ce[c].u), T("freec", c)>> \o r)
    [] t.k = "drop" /\ fam = "r" /\ t.h.k = "S" ->
         IF y.ce[c].s = 1
         THEN Run([Touch(y, c) EXCEPT !.ce[c].s = 0, !.ce[c].w = @ + 1], <<T("kill", y.ce[c].u), T("rcpost", c)>> \o r)
         ELSE Run([Touch(y, c) EXCEPT !.ce[c].s = @ - 1], r)
    [] t.k = "rcpost" ->
         LET z == [Touch(y, t.id) EXCEPT !.ce[t.id].w = @ - 1] IN
         Run(IF z.ce[t.id].s = 0 /\ z.ce[t.id].w = 0 THEN FreeC(z, t.id) ELSE z, r)
    [] t.k = "drop" /\ fam = "r" /\ t.h.k = "W" ->
         IF c = 0 THEN Run(y, r)
         ELSE LET z == [Touch(y, c) EXCEPT !.ce[c].w = @ - 1] IN
              Run(IF z.ce[c].s = 0 /\ z.ce[c].w = 0 THEN FreeC(z, c) ELSE z, r)
    [] t.k = "drop" /\ fam = "a" /\ t.h.k \in {"S", "E"} ->
         LET z == [Touch(y, c) EXCEPT !.ce[c].s = @ - 1] IN
         Run(z, IF z.ce[c].s = 0 THEN <<T("kill", y.ce[c].u), T("weak", c)>> \o r ELSE r)
    [] t.k = "drop" /\ fam = "a" /\ t.h.k = "W" -> Run(y, <<T("weak", c)>> \o r)
    [] t.k = "weak" ->       \* the last weak reference, implicit or not, releases the memory
         LET z == [Touch(y, t.id) EXCEPT !.ce[t.id].w = @ - 1] IN
         Run(IF z.ce[t.id].w = 0 THEN FreeC(z, t.id) ELSE z, r)
    [] t.k = "strong" ->     \* a strong group leaves the master
         LET z == [Touch(y, t.id) EXCEPT !.ce[t.id].s = @ - 1] IN
         Run(z, IF z.ce[t.id].s = 0 THEN <<T("kill", y.ce[t.id].u), T("weak", t.id)>> \o r ELSE r)
    [] t.k = "drop" /\ fam = "u" /\ t.h.k \in {"S", "E"} ->
         IF y.gr[g].s = 1 /\ y.gr[g].w = 0 THEN Run(TouchG(y, g), <<T("strong", c), T("freeg", g)>> \o r)
         ELSE IF y.gr[g].s = 1
         THEN Run([TouchG(Touch(y, c), g) EXCEPT !.ce[c].w = @ + 1, !.gr[g].s = 0], <<T("strong", c)>> \o r)
         ELSE Run([TouchG(y, g) EXCEPT !.gr[g].s = @ - 1], r)
    [] t.k = "drop" /\ t.h.k = "F" ->
         Run(TouchG(y, g), <<T(IF y.gr[g].s > 0 THEN "strong" ELSE "weak", c), T("freeg", g)>> \o r)
    [] t.k = "drop" /\ fam = "u" /\ t.h.k = "W" ->
         IF y.gr[g].w = 1 /\ y.gr[g].s = 0 THEN Run(TouchG(y, g), <<T("weak", c), T("freeg", g)>> \o r)
         ELSE Run([TouchG(y, g) EXCEPT !.gr[g].w = @ - 1], r)
    [] t.k = "freec" -> Run(FreeC(y, t.id), r)
    [] t.k = "freeg" -> Run(FreeG(y, t.id), r)
    [] t.k = "kill" ->
         LET ks == y.nd[t.id] IN
         Run([y EXCEPT !.nd = Without(@, t.id), !.dr = Append(@, t.id), !.lg = @ \o <<-t.id>> \o SawAll(y, ks)],
             [i \in DOMAIN ks |-> TDrop(ks[i])] \o r)

(* ------------------------------------------------------------------ operations   *)
MakeCell(y, u, k) ==   \* [x, h]
  LET c == y.n + 1 g == y.n + 2 IN
  IF k = "B" THEN [x |-> [y EXCEPT !.n = c, !.ce = @ @@ (c :> [s |-> 0, w |-> 0, u |-> u, mem |-> TRUE]),
                                   !.rq = Append(@, Rq("a", c))],
                   h |-> [NoH EXCEPT !.k = "B", !.c = c]]
  ELSE IF fam = "u" THEN
     [x |-> [y EXCEPT !.n = g, !.ce = @ @@ (c :> [s |-> 1, w |-> 1, u |-> u, mem |-> TRUE]),
                      !.gr = @ @@ (g :> [s |-> 1, w |-> 0, mem |-> TRUE]),
                      !.rq = @ \o <<Rq("a", c), Rq("a", g)>>],
      h |-> [NoH EXCEPT !.k = "S", !.c = c, !.g = g]]
  ELSE [x |-> [y EXCEPT !.n = c, !.ce = @ @@ (c :> [s |-> 1, w |-> IF fam = "r" THEN 0 ELSE 1, u |-> u, mem |-> TRUE]),
                        !.rq = Append(@, Rq("a", c))],
        h |-> [NoH EXCEPT !.k = "S", !.c = c]]

Put(y, i, h) == [y EXCEPT !.sl[i] = h]
PutNew(y, i, u, k) == LET m == MakeCell(y, u, k) IN Put(m.x, i, m.h)

Sole(y, h) ==   \* the only handle of any kind, as get_mut decides it
  LET c == y.ce[h.c] IN
  CASE fam = "r" -> c.s = 1 /\ c.w = 0
    [] fam = "a" -> c.s = 1 /\ c.w = 1
    [] OTHER -> c.s = 1 /\ c.w = 1 /\ y.gr[h.g].s = 1 /\ y.gr[h.g].w = 0
SoleStrong(y, h) ==
  IF fam = "u" THEN y.gr[h.g].s = 1 /\ y.ce[h.c].s = 1 ELSE y.ce[h.c].s = 1

(* The value is taken away from the (only strong) handle h, which goes away. *)
Disown(y, h) ==
  LET y1 == [y EXCEPT !.ce[h.c].s = 0] IN
  CASE fam = "r" -> Run(y1, IF y1.ce[h.c].w = 0 THEN <<T("freec", h.c)>> ELSE <<>>)
    [] fam = "a" -> Run(y1, <<T("weak", h.c)>>)
    [] OTHER -> LET y2 == [y1 EXCEPT !.gr[h.g].s = 0] IN
                Run(y2, IF y2.gr[h.g].w = 0 THEN <<T("weak", h.c), T("freeg", h.g)>> ELSE <<>>)

Res(res, y) == [res |-> res, x |-> y, u |-> 0]

Exec(o) ==
  LET A == x.sl[o.a] y == [x EXCEPT !.dr = <<>>, !.lg = <<>>, !.rq = <<>>]
      u == nxt
      node(z) == [z EXCEPT !.nd = @ @@ (u :> <<>>)]
      at(h) == IF h.k = "V" THEN h.u ELSE x.ce[h.c].u
  IN
  CASE o.op = "val" -> [Res("ok", Put(node(y), o.a, [NoH EXCEPT !.k = "V", !.u = u])) EXCEPT !.u = u]
    [] o.op = "new" -> [Res("ok", PutNew(node(y), o.a, u, "S")) EXCEPT !.u = u]
    [] o.op = "box" -> [Res("ok", PutNew(node(y), o.a, u, "B")) EXCEPT !.u = u]
    [] o.op \in {"wrap", "twrap", "pwrap"} -> Res("ok", PutNew(y, o.a, A.u, "S"))
    [] o.op = "wrapbox" -> Res("ok", PutNew(y, o.a, A.u, "B"))
    [] o.op = "clone" ->
         Res("ok", Put(IF fam = "u" THEN [y EXCEPT !.gr[A.g].s = @ + 1] ELSE [y EXCEPT !.ce[A.c].s = @ + 1], o.b, A))
    [] o.op = "down" ->
         Res("ok", Put(IF fam = "u" THEN [y EXCEPT !.gr[A.g].w = @ + 1] ELSE [y EXCEPT !.ce[A.c].w = @ + 1], o.b,
                       [A EXCEPT !.k = "W"]))
    [] o.op = "up" -> IF A.c # 0 /\ x.ce[A.c].s > 0
                      THEN Res("ok", Put([y EXCEPT !.ce[A.c].s = @ + 1], o.b, [A EXCEPT !.k = "S"]))
                      ELSE Res("none", y)
    [] o.op = "wclone" -> Res("ok", Put(IF A.c = 0 THEN y ELSE [y EXCEPT !.ce[A.c].w = @ + 1], o.b, A))
    [] o.op = "wnull" -> Res("ok", Put(y, o.a, [NoH EXCEPT !.k = "W"]))
    [] o.op = "drop" -> Res("ok", Run(Put(y, o.a, NoH), <<TDrop(A)>>))
    [] o.op = "give" -> Res("ok", [Put(y, o.b, NoH) EXCEPT !.nd[at(A)] = Append(@, x.sl[o.b])])
    [] o.op = "take" -> LET ks == x.nd[at(A)] IN
         IF ks = <<>> THEN Res("none", y)
         ELSE Res("ok", [Put(y, o.b, ks[Len(ks)]) EXCEPT !.nd[at(A)] = Front(ks, Len(ks) - 1)])
    [] o.op = "getmut" -> Res(IF A.k # "S" \/ Sole(x, A) THEN "ok" ELSE "none", y)
    [] o.op = "unwrap" ->
         IF SoleStrong(x, A)
         THEN Res("ok", Put(Disown(y, A), o.a, [NoH EXCEPT !.k = "V", !.u = x.ce[A.c].u]))
         ELSE Res("err", y)
    [] o.op = "makemut" ->
         IF Sole(x, A) THEN Res("ok", y)
         ELSE IF SoleStrong(x, A) THEN LET m == MakeCell(y, x.ce[A.c].u, "S") IN
              Res("ok", Disown(Put(m.x, o.a, m.h), A))
         ELSE LET m == MakeCell(node(y), u, "S") IN
              [Res("ok", Run(Put(m.x, o.a, m.h), <<TDrop(A)>>)) EXCEPT !.u = u]
    [] o.op = "env" ->
         IF fam = "a" THEN Res("ok", Put([y EXCEPT !.ce[A.c].s = @ + 1], o.b, [A EXCEPT !.k = "E"]))
         ELSE LET g == y.n + 1 IN
              Res("ok", Put([y EXCEPT !.n = g, !.ce[A.c].s = @ + 1, !.gr = @ @@ (g :> [s |-> 1, w |-> 0, mem |-> TRUE]),
                                      !.rq = Append(@, Rq("a", g))], o.b, [A EXCEPT !.k = "E", !.g = g]))
    [] o.op = "recv" -> Res("ok", Put(y, o.a, [A EXCEPT !.k = "S"]))
    [] o.op = "fence" -> IF x.gr[A.g].s = 1 /\ x.gr[A.g].w = 0 THEN Res("ok", Put(y, o.a, [A EXCEPT !.k = "F"]))
                         ELSE Res("err", y)
    [] o.op = "unfence" -> LET g == y.n + 1 IN    \* the fence moves to memory of its own
         Res("ok", FreeG(Put([y EXCEPT !.n = g, !.gr = @ @@ (g :> x.gr[A.g]), !.rq = Append(@, Rq("a", g))], o.a,
                             [A EXCEPT !.k = "S", !.g = g]), A.g))
    [] o.op = "unbox" -> Res("ok", Put(FreeC(y, A.c), o.a, [NoH EXCEPT !.k = "V", !.u = x.ce[A.c].u]))
    [] o.op = "frombox" -> Res("ok", PutNew(FreeC(y, A.c), o.a, x.ce[A.c].u, "S"))
    [] o.op \in {"ptreq", "view", "gmu"} -> Res("ok", y)
    [] o.op = "def" -> [Res("ok", PutNew(node(y), o.a, u, "S")) EXCEPT !.u = u]
    [] o.op = "uninit" -> [Res("ok", Put(node(y), o.a, [NoH EXCEPT !.k = "V", !.u = u])) EXCEPT !.u = u]

(* What the driver observes of slot i. *)
Obs(y, i, v) ==
  LET h == y.sl[i] o == [i |-> i, k |-> h.k, u |-> 0, v |-> 0, sc |-> -1, wc |-> -1, sf |-> -1, bl |-> 0] IN
  CASE h.k = "S" -> [o EXCEPT !.u = y.ce[h.c].u, !.v = v[y.ce[h.c].u],
        !.sc = IF fam = "u" THEN y.gr[h.g].s ELSE y.ce[h.c].s,
        !.wc = IF fam = "u" THEN y.gr[h.g].w ELSE IF fam = "r" THEN y.ce[h.c].w ELSE y.ce[h.c].w - 1,
        !.sf = IF fam = "u" THEN B01(y.ce[h.c].s = 1) ELSE -1, !.bl = h.c]
    [] h.k = "W" -> IF fam = "r"
        THEN [o EXCEPT !.sc = IF h.c = 0 THEN 0 ELSE y.ce[h.c].s, !.wc = IF h.c = 0 THEN 0 ELSE y.ce[h.c].w, !.bl = h.c]
        ELSE [o EXCEPT !.bl = -1]
    [] h.k = "F" -> [o EXCEPT !.sc = y.gr[h.g].s, !.wc = y.gr[h.g].w, !.sf = B01(y.gr[h.g].s > 0)]
    [] h.k = "B" -> [o EXCEPT !.u = y.ce[h.c].u, !.v = v[y.ce[h.c].u], !.bl = h.c]
    [] h.k = "V" -> [o EXCEPT !.u = h.u, !.v = v[h.u]]
    [] OTHER -> o

(* ------------------------------------------------------------------ exploration  *)
Op(op, a, b) == [op |-> op, a |-> a, b |-> b]
MS == 0..(NS - 1)
FreeSlots == {i \in MS : x.sl[i].k = "-"}
Free1 == IF FreeSlots = {} THEN {} ELSE {CHOOSE i \in FreeSlots : \A j \in FreeSlots : i <= j}
Kind(ks) == {i \in MS : x.sl[i].k \in ks}
ValOf(i) == IF x.sl[i].k = "V" THEN x.sl[i].u ELSE x.ce[x.sl[i].c].u
Kids(i) == x.nd[ValOf(i)]

Ops ==
  {Op(o, i, 0) : o \in {"new"} \cup (Extra \ {"view"}), i \in Free1}
  \cup (IF "view" \in Extra THEN {Op("view", i, 0) : i \in Kind({"S", "B"} \cup (IF fam = "r" THEN {"W"} ELSE {}))} ELSE {})
  \cup (IF "view" \in Extra /\ fam # "r"
        THEN {Op("gmu", i, 0) : i \in Kind({"S"})} \cup {Op(o, i, 0) : o \in {"def", "uninit"}, i \in Free1} ELSE {})
  \cup {Op(o, i, j) : o \in {"clone", "down"}, i \in Kind({"S"}), j \in Free1}
  \cup {Op("drop", i, 0) : i \in Kind({"S", "W", "F", "E", "B", "V"})}
  \cup {Op(o, i, 0) : o \in {"getmut", "unwrap", "makemut"}, i \in Kind({"S"})}
  \cup {Op("give", p[1], p[2]) : p \in {q \in Kind({"S", "B", "V"}) \X Kind({"S", "W"}) : q[1] # q[2] /\ Len(Kids(q[1])) < 2}}
  \cup {Op("take", i, j) : i \in {k \in Kind({"S", "B", "V"}) : Kids(k) # <<>>}, j \in Free1}
  \cup {Op("wrap", i, 0) : i \in Kind({"V"})}
  \cup {Op("ptreq", p[1], p[2]) : p \in {q \in Kind({"S"}) \X Kind({"S"}) : q[1] < q[2]}}
  \cup (IF fam = "r" THEN {Op("up", i, j) : i \in Kind({"W"}), j \in Free1}
                          \cup {Op("wclone", i, j) : i \in Kind({"W"}), j \in Free1} ELSE {})
  \cup (IF fam # "r" THEN {Op("env", i, j) : i \in Kind({"S"}), j \in Free1}
                          \cup {Op("recv", i, 0) : i \in Kind({"E"})} ELSE {})
  \cup (IF fam = "u" THEN {Op("fence", i, 0) : i \in Kind({"S"})} \cup {Op("unfence", i, 0) : i \in Kind({"F"})} ELSE {})
  \cup (IF "box" \in Extra THEN {Op("unbox", i, 0) : i \in Kind({"B"})} \cup {Op("wrapbox", i, 0) : i \in Kind({"V"})}
                                \cup {Op("frombox", i, 0) : i \in IF fam = "r" THEN Kind({"B"}) ELSE {}} ELSE {})

Line(o, v) == o.op \o " a=" \o ToString(o.a) \o (IF o.b # 0 THEN " b=" \o ToString(o.b) ELSE "")
              \o (IF v # 0 THEN " v=" \o ToString(v) ELSE "")

Init == /\ fam \in Fams
        /\ x = X0 /\ st = RStart /\ nxt = 1 /\ hist = "" /\ depth = 0 /\ last = {}

Do(o) ==
  LET r == TLCEval(Exec(o))
      v == IF o.op = "def" THEN 7 ELSE IF o.op \in {"new", "val", "box", "getmut", "makemut", "gmu", "uninit"} THEN 1 + (nxt % 3) ELSE 0
      old(u) == st.nd[u].v
      target == IF o.op \in {"getmut", "makemut", "gmu"} /\ r.res = "ok"
                THEN (IF r.u # 0 THEN r.u ELSE NodeAt(st, st.sl[o.a])) ELSE 0
      vals == [u \in DOMAIN r.x.nd |-> IF u = target \/ (u = r.u) THEN v ELSE old(u)]
      used == {i \in RSLOTS : r.x.sl[i].k # "-"}
      made == IF r.u = 0 THEN <<>>
              ELSE << <<r.u, IF o.op = "makemut" THEN old(NodeAt(st, st.sl[o.a])) ELSE v, 0>> >>
      obs == LET RECURSIVE F(_) F(i) == IF i > 5 THEN <<>>
                 ELSE (IF i \in used THEN <<Obs(r.x, i, vals)>> ELSE <<>>) \o F(i + 1) IN F(0)
      A == x.sl[o.a]
      id == IF A.k = "W" THEN IF A.c = 0 \/ x.ce[A.c].s = 0 THEN 0 ELSE x.ce[A.c].u ELSE ValOf(o.a)
      sees == o.op = "view"
      tx == IF A.k # "W" THEN <<ToString(old(id)), "<" \o ToString(old(id)) \o ">">>
            ELSE IF A.c = 0 THEN <<"(Weak null)">> ELSE IF id = 0 THEN <<"(Weak deallocated)">>
            ELSE <<"(Weak(" \o ToString(old(id)) \o "))">>
      e == [op |-> o.op, a |-> o.a, b |-> o.b, m |-> 0, v |-> v, pk |-> 0, res |-> r.res, inj |-> 0, af |-> 0,
            n |-> 0, t |-> <<>>,
            vw |-> IF sees /\ A.k # "W" THEN [i \in 1..4 |-> <<id, old(id)>>] ELSE IF o.op = "uninit" THEN [i \in 1..2 |-> <<r.u, v>>] ELSE <<>>,
            tx |-> IF sees THEN tx ELSE <<>>,
            num |-> CASE o.op = "ptreq" -> <<B01(x.sl[o.a].c = x.sl[o.b].c)>>
                      [] sees /\ A.k # "W" -> <<1>> [] o.op = "uninit" -> <<1, 2>> [] OTHER -> <<>>,
            an |-> <<>>, dr |-> r.x.dr, cr |-> made, lg |-> r.x.lg, rq |-> r.x.rq, sl |-> obs]
      j == TLCEval(RJudge([fam |-> fam, pay |-> "rich"], e, st))
      hi == hist \o ";" \o Line(o, v) IN
  /\ x' = r.x /\ st' = j.st
  /\ last' = j.bad
  /\ nxt' = nxt + 1
  /\ depth' = depth + 1
  /\ hist' = hi
  /\ Emit => PrintT("SC|" \o fam \o "|" \o hi)
  /\ UNCHANGED fam

Next == \E o \in Ops : Do(o)

Spec == Init /\ [][Next]_vars

Bound == depth < Depth

(* States that differ only in names are the same. *)
Sig ==
  LET hs == World([sl |-> x.sl, nd |-> [u \in DOMAIN x.nd |-> [kids |-> x.nd[u]]]], <<>>)
      first(c) == IF c = 0 THEN 0 ELSE CHOOSE i \in DOMAIN hs : hs[i].c = c /\ \A k \in 1..(i - 1) : hs[k].c # c
      firstg(g) == IF g = 0 THEN 0 ELSE CHOOSE i \in DOMAIN hs : hs[i].g = g /\ \A k \in 1..(i - 1) : hs[k].g # g
      sig(h) == <<h.k, first(h.c), firstg(h.g), IF h.c # 0 THEN x.ce[h.c].s ELSE 0, IF h.c # 0 THEN x.ce[h.c].w ELSE 0>>
  IN <<[i \in DOMAIN hs |-> sig(hs[i])],
       [i \in MS |-> IF x.sl[i].k \in {"S", "B", "V"} THEN Len(Kids(i)) ELSE 0]>>
View == <<fam, Sig, last>>

(* ---- what must hold of the algorithms *)
Accepted == last = {}
NoUseAfterFree == ~x.uaf
Counts ==   \* the counters are the numbers of handles
  LET hs == World(st, <<>>) IN
  \A c \in Cells(hs) :
     CASE fam = "r" -> st.ce[c] # 0 => Strong(hs, c) = Cardinality({i \in DOMAIN hs : hs[i].c = c /\ IsStrong(hs[i])})
       [] OTHER -> TRUE
Alive ==    \* alive values: those a strong handle, a box or a slot reaches
  LET hs == World(st, <<>>) IN
  \A u \in DOMAIN st.nd : \E i \in DOMAIN hs : hs[i].k \in {"S", "F", "E", "B", "V"} /\ NodeAt(st, hs[i]) = u
Memory ==   \* memory is there exactly for the handles there are
  LET hs == World(st, <<>>) IN DOMAIN st.led = UnionOf(st.cb, Cells(hs)) \cup UnionOf(st.gb, Groups(hs))
=============================================================================
