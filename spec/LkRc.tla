-------------------------------- MODULE LkRc --------------------------------
(* The contract of Rc, Arc, Urc (inside one thread) and Box: who owns a value, what   *)
(* every operation on a handle does, when values are dropped and memory is returned.  *)
(*                                                                                    *)
(* A value ("node") has an identity, a number, and a list of handles it owns itself.  *)
(* A cell is what a family of handles shares: it holds a value or, once the last      *)
(* strong handle is gone, nothing. Handles of a Urc belong to a group of a cell.      *)
EXTENDS LkBase

RSLOTS == 0..5

(* A handle: [k: kind, c: cell, g: group (0 unless Urc), u: identity of an owned node] *)
(* Kinds: "-" none, "S" strong, "W" weak, "F" detached group, "E" in an envelope,     *)
(* "B" box, "V" the bare value.                                                       *)
NoH == [k |-> "-", c |-> 0, g |-> 0, u |-> 0]

(* State: sl slots, nd: identity -> [v, kids], ce: cell -> identity or 0,             *)
(* cb/gb: blocks of cells/groups, cs: scope a cell was made in, n: last cell/group,   *)
(* led: ledger, sc: stack of scopes, dead: a violation was reported already.          *)
RStart == [sl |-> [i \in RSLOTS |-> NoH], nd |-> <<>>, ce |-> <<>>, cb |-> <<>>, gb |-> <<>>, cs |-> <<>>,
           n |-> 0, led |-> <<>>, sc |-> <<0>>, dead |-> FALSE]

IsStrong(x) == x.k \in {"S", "F", "E"}
IsHandle(x) == x.k \in {"S", "F", "E", "W"}

(* All handles there are: in slots, owned by values, and not yet dropped (w). *)
RECURSIVE FlatKids(_, _)
FlatKids(nd, D) == IF D = {} THEN <<>> ELSE LET u == CHOOSE x \in D : TRUE IN nd[u].kids \o FlatKids(nd, D \ {u})
World(st, w) ==
  TLCEval(<<st.sl[0], st.sl[1], st.sl[2], st.sl[3], st.sl[4], st.sl[5]>> \o FlatKids(st.nd, DOMAIN st.nd) \o w)
Count(hs, P(_)) == Cardinality({i \in DOMAIN hs : P(hs[i])})
Strong(hs, c) == Count(hs, LAMBDA x : IsStrong(x) /\ x.c = c)
Weaks(hs, c) == Count(hs, LAMBDA x : x.k = "W" /\ x.c = c)
GStrong(hs, g) == Count(hs, LAMBDA x : IsStrong(x) /\ x.g = g)
GWeaks(hs, g) == Count(hs, LAMBDA x : x.k = "W" /\ x.g = g)
StrongGroups(hs, c) == Cardinality({hs[i].g : i \in {j \in DOMAIN hs : IsStrong(hs[j]) /\ hs[j].c = c}})

Without(f, x) == TLCEval([i \in DOMAIN f \ {x} |-> f[i]])

(* ------------------------------------------------------------------ destruction  *)
(* Drops the handles of the worklist in order. A value dies with its last strong    *)
(* handle; its destructor looks at the handles it owns, then these are dropped.     *)
KidLog(fam, st, hs, k) ==
  IF k.k = "S" THEN <<1, st.ce[k.c], IF fam = "u" THEN GStrong(hs, k.g) ELSE Strong(hs, k.c)>>
  ELSE <<2, IF fam = "r" /\ k.c # 0 THEN st.ce[k.c] ELSE 0>>

RECURSIVE CatLogs(_, _, _, _)
CatLogs(fam, st, hs, ks) == IF ks = <<>> THEN <<>> ELSE KidLog(fam, st, hs, Head(ks)) \o CatLogs(fam, st, hs, Tail(ks))

RECURSIVE DropAll(_, _, _, _, _)
DropAll(fam, st, w, dr, lg) ==
  IF w = <<>> THEN [st |-> st, dr |-> dr, lg |-> lg]
  ELSE
  LET h == Head(w) t == Tail(w)
      dies == CASE h.k = "V" -> h.u
                [] h.k = "B" -> st.ce[h.c]
                [] IsStrong(h) -> IF Strong(World(st, t), h.c) = 0 THEN st.ce[h.c] ELSE 0
                [] OTHER -> 0
  IN
  IF dies = 0 THEN DropAll(fam, st, t, dr, lg)
  ELSE LET kids == st.nd[dies].kids
           s1 == [st EXCEPT !.nd = Without(@, dies),
                            !.ce = IF h.k = "V" THEN @ ELSE [@ EXCEPT ![h.c] = 0]]
           \* while the destructor runs the handles owned are still there
           hs == World(s1, kids \o t) IN
       DropAll(fam, TLCEval(s1), kids \o t, Append(dr, dies), lg \o <<-dies>> \o CatLogs(fam, s1, hs, kids))

Drop1(fam, st, i) ==   \* drop the content of slot i
  DropAll(fam, [st EXCEPT !.sl[i] = NoH], <<st.sl[i]>>, <<>>, <<>>)

RECURSIVE DropSlots(_, _, _, _, _)
DropSlots(fam, st, i, dr, lg) ==
  IF i > 5 THEN [st |-> st, dr |-> dr, lg |-> lg]
  ELSE LET r == DropAll(fam, [st EXCEPT !.sl[i] = NoH], <<st.sl[i]>>, dr, lg) IN
       DropSlots(fam, TLCEval(r.st), i + 1, r.dr, r.lg)

(* ------------------------------------------------------------------ meaning      *)
(* What an operation does: [res: result, st: state after, dr: identities dropped in *)
(* order, lg: what destructors saw, made: number given to a created value or -1,    *)
(* num: numbers returned or <<-1>>]. `u` is the identity of a value created.        *)
Out(res, st) == [res |-> res, st |-> st, dr |-> <<>>, lg |-> <<>>, made |-> -1, num |-> <<>>]
OutD(res, r) == [res |-> res, st |-> r.st, dr |-> r.dr, lg |-> r.lg, made |-> -1, num |-> <<>>]

(* A new cell (and group) with value u (0: none yet) *)
NewCell(fam, st, u) ==
  LET c == st.n + 1 IN
  [st EXCEPT !.n = c + 1, !.ce = @ @@ (c :> u), !.cb = @ @@ (c :> {}), !.cs = @ @@ (c :> st.sc[Len(st.sc)]),
             !.gb = IF fam = "u" THEN @ @@ ((c + 1) :> {}) ELSE @]
HandleOf(fam, k, c, g) == [k |-> k, c |-> c, g |-> IF fam = "u" THEN g ELSE 0, u |-> 0]
NodeAt(st, h) == IF h.k = "V" THEN h.u ELSE st.ce[h.c]
AddNode(st, u, v) == [st EXCEPT !.nd = @ @@ (u :> [v |-> v, kids |-> <<>>])]

(* The value of slot i is wrapped: in a box or in a new family of handles. *)
Wrapped(fam, st, i, u, k) ==
  LET s1 == NewCell(fam, st, u) IN
  [s1 EXCEPT !.sl[i] = IF k = "B" THEN [NoH EXCEPT !.k = "B", !.c = st.n + 1]
                       ELSE HandleOf(fam, "S", st.n + 1, st.n + 2)]

(* What an iterator over lo..hi-1 in a box yields. *)
RECURSIVE BoxIt(_, _, _)
BoxIt(lo, hi, t) ==
  IF t = <<>> THEN <<>>
  ELSE LET c == Head(t) r == Tail(t) k == hi - lo IN
    CASE c = "n" -> IF k > 0 THEN <<lo>> \o BoxIt(lo + 1, hi, r) ELSE <<-1>> \o BoxIt(hi, hi, r)
      [] c = "b" -> IF k > 0 THEN <<hi - 1>> \o BoxIt(lo, hi - 1, r) ELSE <<-1>> \o BoxIt(lo, lo, r)
      [] c = "N" -> IF k > 1 THEN <<lo + 1>> \o BoxIt(lo + 2, hi, r) ELSE <<-1>> \o BoxIt(hi, hi, r)
      [] c = "B" -> IF k > 1 THEN <<hi - 2>> \o BoxIt(lo, hi - 2, r) ELSE <<-1>> \o BoxIt(lo, lo, r)
      [] OTHER -> <<k>> \o BoxIt(lo, hi, r)

(* What is shared is rich (has an identity and may own handles), zst (nothing but a     *)
(* destructor) or pod (a number without destructor).                                    *)
RSem(fam, pay, e, st, u) ==
  LET A == st.sl[e.a] B == st.sl[e.b]
      hs == TLCEval(World(st, <<>>))
      skip == Out("skip", st)
      refused == e.af > 0 /\ e.res \in {"panic", "err"}
      a0 == A.k = "-" b0 == B.k = "-"
      strong == A.k = "S"
      val == A.k \in {"S", "B", "V"}
      setv(s, x) == [s EXCEPT !.nd[x].v = e.v]
  IN
  CASE e.op = "val" ->
         IF ~a0 THEN skip
         ELSE [Out("ok", [AddNode(st, u, e.v) EXCEPT !.sl[e.a] = [NoH EXCEPT !.k = "V", !.u = u]]) EXCEPT !.made = e.v]
    [] e.op \in {"new", "box"} ->
         IF ~a0 THEN skip
         ELSE IF refused THEN [Out("panic", st) EXCEPT !.made = e.v, !.dr = <<u>>, !.lg = <<-u>>]
         ELSE [Out("ok", Wrapped(fam, AddNode(st, u, e.v), e.a, u, IF e.op = "box" THEN "B" ELSE "S"))
                 EXCEPT !.made = e.v]
    [] e.op \in {"wrap", "twrap", "pwrap", "wrapbox"} ->
         IF A.k # "V" \/ (fam = "r" /\ e.op \in {"twrap", "pwrap"}) THEN skip
         ELSE IF refused THEN OutD(IF e.op \in {"twrap", "pwrap"} THEN "err" ELSE "panic", Drop1(fam, st, e.a))
         ELSE Out("ok", Wrapped(fam, st, e.a, A.u, IF e.op = "wrapbox" THEN "B" ELSE "S"))
    [] e.op = "clone" -> IF ~strong \/ ~b0 THEN skip ELSE Out("ok", [st EXCEPT !.sl[e.b] = A])
    [] e.op = "down" -> IF ~strong \/ ~b0 THEN skip ELSE Out("ok", [st EXCEPT !.sl[e.b] = [A EXCEPT !.k = "W"]])
    [] e.op = "up" ->
         IF fam # "r" \/ A.k # "W" \/ ~b0 THEN skip
         ELSE IF A.c = 0 \/ st.ce[A.c] = 0 THEN Out("none", st)
         ELSE Out("ok", [st EXCEPT !.sl[e.b] = [A EXCEPT !.k = "S"]])
    [] e.op = "wclone" -> IF fam # "r" \/ A.k # "W" \/ ~b0 THEN skip ELSE Out("ok", [st EXCEPT !.sl[e.b] = A])
    [] e.op = "wnull" -> IF fam # "r" \/ ~a0 THEN skip ELSE Out("ok", [st EXCEPT !.sl[e.a] = [NoH EXCEPT !.k = "W"]])
    [] e.op = "drop" -> IF a0 THEN skip ELSE OutD("ok", Drop1(fam, st, e.a))
    [] e.op = "give" ->
         IF pay # "rich" \/ e.a = e.b \/ ~(B.k \in {"S", "W"}) \/ ~val THEN skip
         ELSE LET x == NodeAt(st, A) IN
              Out("ok", [st EXCEPT !.sl[e.b] = NoH, !.nd[x].kids = Append(@, B)])
    [] e.op = "take" ->
         IF pay # "rich" \/ ~b0 \/ ~val THEN skip
         ELSE LET x == NodeAt(st, A) ks == st.nd[x].kids IN
              IF ks = <<>> THEN Out("none", st)
              ELSE Out("ok", [st EXCEPT !.sl[e.b] = ks[Len(ks)], !.nd[x].kids = Front(ks, Len(ks) - 1)])
    [] e.op = "getmut" ->
         IF ~val THEN skip
         ELSE IF strong /\ Strong(hs, A.c) + Weaks(hs, A.c) > 1 THEN Out("none", st)
         ELSE Out("ok", setv(st, NodeAt(st, A)))
    [] e.op = "unwrap" ->
         IF ~strong THEN skip
         ELSE IF Strong(hs, A.c) > 1 THEN Out("err", st)
         ELSE Out("ok", [st EXCEPT !.sl[e.a] = [NoH EXCEPT !.k = "V", !.u = st.ce[A.c]], !.ce[A.c] = 0])
    [] e.op = "makemut" ->
         IF ~strong THEN skip
         ELSE LET x == st.ce[A.c] IN
         IF Strong(hs, A.c) = 1 /\ Weaks(hs, A.c) = 0 THEN Out("ok", setv(st, x))
         ELSE IF Strong(hs, A.c) = 1 THEN   \* moved away from the weak handles
              (IF refused THEN Out("panic", st)
               ELSE Out("ok", setv(Wrapped(fam, [st EXCEPT !.ce[A.c] = 0], e.a, x, "S"), x)))
         ELSE IF e.inj = 1 \/ (refused /\ u = 0) THEN Out("panic", st)
         ELSE IF refused THEN [Out("panic", st) EXCEPT !.made = st.nd[x].v, !.dr = <<u>>, !.lg = <<-u>>]
         ELSE [Out("ok", Wrapped(fam, AddNode(st, u, e.v), e.a, u, "S")) EXCEPT !.made = st.nd[x].v]
    [] e.op = "ptreq" ->
         IF A.k # B.k \/ ~(A.k = "S" \/ (A.k = "W" /\ fam = "r")) THEN skip
         ELSE [Out("ok", st) EXCEPT !.num = <<B01(A.c = B.c)>>]
    [] e.op = "cmp" -> IF A.k # B.k \/ ~(A.k \in {"S", "B"}) THEN skip ELSE Out("ok", st)
    [] e.op = "env" ->
         IF fam = "r" \/ ~strong \/ ~b0 THEN skip
         ELSE IF refused THEN Out("panic", st)
         ELSE IF fam = "a" THEN Out("ok", [st EXCEPT !.sl[e.b] = [A EXCEPT !.k = "E"]])
         ELSE Out("ok", [st EXCEPT !.sl[e.b] = [A EXCEPT !.k = "E", !.g = st.n + 1],
                                   !.n = @ + 1, !.gb = @ @@ ((st.n + 1) :> {})])
    [] e.op = "recv" -> IF A.k # "E" THEN skip ELSE Out("ok", [st EXCEPT !.sl[e.a].k = "S"])
    [] e.op = "fence" ->
         IF fam # "u" \/ ~strong THEN skip
         ELSE IF GStrong(hs, A.g) = 1 /\ GWeaks(hs, A.g) = 0 THEN Out("ok", [st EXCEPT !.sl[e.a].k = "F"])
         ELSE Out("err", st)
    [] e.op = "unfence" ->
         IF A.k # "F" THEN skip
         ELSE IF refused THEN OutD("panic", Drop1(fam, st, e.a))
         ELSE Out("ok", [st EXCEPT !.sl[e.a].k = "S"])
    [] e.op = "unbox" ->
         IF A.k # "B" THEN skip
         ELSE Out("ok", [st EXCEPT !.sl[e.a] = [NoH EXCEPT !.k = "V", !.u = st.ce[A.c]], !.ce[A.c] = 0])
    [] e.op = "frombox" ->
         IF A.k # "B" \/ fam # "r" THEN skip
         ELSE LET x == st.ce[A.c] s1 == [st EXCEPT !.ce[A.c] = 0] IN
         IF refused THEN OutD("panic", Drop1(fam, st, e.a))
         ELSE Out("ok", Wrapped(fam, s1, e.a, x, "S"))
    [] e.op = "gmu" -> IF fam = "r" \/ ~strong THEN skip ELSE Out("ok", setv(st, st.ce[A.c]))
    [] e.op = "def" ->
         IF fam = "r" \/ ~a0 THEN skip
         ELSE IF refused THEN [Out("panic", st) EXCEPT !.made = 7, !.dr = <<u>>, !.lg = <<-u>>]
         ELSE [Out("ok", Wrapped(fam, AddNode(st, u, 7), e.a, u, "S")) EXCEPT !.made = 7]
    [] e.op = "uninit" ->    \* created empty, filled, looked at, shared for a moment, taken out
         IF fam = "r" \/ ~a0 THEN skip
         ELSE IF refused THEN [Out(IF e.m # 0 THEN "err" ELSE "panic", st) EXCEPT !.made = e.v, !.dr = <<u>>, !.lg = <<-u>>]
         ELSE [Out("ok", [AddNode(st, u, e.v) EXCEPT !.sl[e.a] = [NoH EXCEPT !.k = "V", !.u = u]])
                 EXCEPT !.made = e.v, !.num = <<1, 2>>]
    [] e.op = "view" ->
         IF ~(A.k \in {"S", "B"} \/ (A.k = "W" /\ fam = "r")) THEN skip
         ELSE [Out("ok", st) EXCEPT !.num = IF A.k = "W" THEN <<>> ELSE <<1>>]
    [] e.op = "many" ->      \* n handles more for a moment; then they are gone again
         IF e.m = 3
         THEN IF fam # "r" \/ A.k # "W" THEN skip
              ELSE LET sc == IF A.c = 0 THEN 0 ELSE Strong(hs, A.c) up == IF sc = 0 THEN 0 ELSE e.n IN
                   [Out("ok", st) EXCEPT !.num = <<up, sc + up, IF A.c = 0 THEN 0 ELSE Weaks(hs, A.c)>>]
         ELSE IF ~strong \/ (fam = "r" /\ e.m = 4) THEN skip
         ELSE IF e.m = 4 /\ refused THEN Out("panic", st)
         ELSE LET ns == IF e.m \in {0, 2} \/ (e.m = 4 /\ fam = "a") THEN e.n ELSE 0
                  nw == IF e.m \in {1, 2} THEN e.n ELSE 0
                  groups == StrongGroups(hs, A.c) + (IF e.m = 4 THEN e.n ELSE 0)
              IN [Out("ok", st) EXCEPT !.num =
                    << (IF fam = "u" THEN GStrong(hs, A.g) ELSE Strong(hs, A.c)) + ns,
                       (IF fam = "u" THEN GWeaks(hs, A.g) ELSE Weaks(hs, A.c)) + nw,
                       IF fam = "u" THEN B01(groups = 1) ELSE -1,
                       B01(Strong(hs, A.c) + Weaks(hs, A.c) = 1 /\ e.n = 0), 0, 0 >>]
    [] e.op = "boxit" -> [Out("ok", st) EXCEPT !.num = BoxIt(0, e.n, e.t)]
    [] e.op = "boxhash" -> [Out("ok", st) EXCEPT !.num = [i \in 1..e.n |-> 1]]
    [] e.op = "end" -> OutD("ok", DropSlots(fam, st, 0, <<>>, <<>>))
    [] OTHER -> Out("ok", st)

(* What looking at the handle in slot a shows. *)
ViewOk(fam, pay, e, st) ==
  LET A == st.sl[e.a]
      x == NodeAt(st, A)
      v == IF pay = "zst" THEN 0 ELSE st.nd[x].v
      shows(y) == CASE pay = "rich" -> y = <<x, v>> [] pay = "pod" -> y[2] = v [] OTHER -> TRUE
  IN
  CASE e.op = "view" /\ A.k = "W" ->
         e.tx = << IF A.c = 0 THEN "(Weak null)" ELSE IF x = 0 THEN "(Weak deallocated)"
                   ELSE "(Weak(" \o ToString(v) \o "))" >>
    [] e.op = "view" -> /\ Len(e.vw) >= 4 /\ \A i \in DOMAIN e.vw : shows(e.vw[i])
                        /\ e.tx = <<ToString(v), "<" \o ToString(v) \o ">">>
    [] e.op = "uninit" -> Len(e.vw) = 2 /\ \A i \in DOMAIN e.vw : shows(e.vw[i])
    [] OTHER -> TRUE

(* ------------------------------------------------------------------ observations *)
SlotObs(fam, st, hs, i) ==   \* what an observer must see in slot i (blocks apart)
  LET x == st.sl[i] u == NodeAt(st, x) IN
  CASE x.k = "S" -> [i |-> i, k |-> "S", u |-> u, v |-> st.nd[u].v,
                     sc |-> IF fam = "u" THEN GStrong(hs, x.g) ELSE Strong(hs, x.c),
                     wc |-> IF fam = "u" THEN GWeaks(hs, x.g) ELSE Weaks(hs, x.c),
                     sf |-> IF fam = "u" THEN B01(StrongGroups(hs, x.c) = 1) ELSE -1]
    [] x.k = "W" -> [i |-> i, k |-> "W", u |-> 0, v |-> 0,
                     sc |-> IF fam # "r" THEN -1 ELSE IF x.c = 0 THEN 0 ELSE Strong(hs, x.c),
                     wc |-> IF fam # "r" THEN -1 ELSE IF x.c = 0 THEN 0 ELSE Weaks(hs, x.c), sf |-> -1]
    [] x.k = "F" -> [i |-> i, k |-> "F", u |-> 0, v |-> 0, sc |-> 1, wc |-> 0, sf |-> 1]
    [] x.k = "E" -> [i |-> i, k |-> "E", u |-> 0, v |-> 0, sc |-> -1, wc |-> -1, sf |-> -1]
    [] OTHER -> [i |-> i, k |-> x.k, u |-> u, v |-> st.nd[u].v, sc |-> -1, wc |-> -1, sf |-> -1]

Used(st) == {i \in RSLOTS : st.sl[i].k # "-"}
Cells(hs) == {hs[i].c : i \in DOMAIN hs} \ {0}
Groups(hs) == {hs[i].g : i \in DOMAIN hs} \ {0}
UnionOf(f, D) == UNION {f[x] : x \in D}

(* Blocks that appeared during the step belong to what the step made. *)
Assign(fam, e, st0, st, led) ==
  LET new == DOMAIN led \ DOMAIN st0.led
      c == (DOMAIN st.ce) \ (DOMAIN st0.ce)
      A == st.sl[e.a]
      bl == {e.sl[i].bl : i \in {j \in DOMAIN e.sl : e.sl[j].i = e.a}}
  IN
  IF new = {} THEN st
  ELSE IF c # {} THEN
       LET x == CHOOSE y \in c : TRUE IN
       IF fam = "u" /\ A.k = "S"
       THEN [st EXCEPT !.cb[x] = new \cap bl, !.gb[A.g] = new \ bl]
       ELSE [st EXCEPT !.cb[x] = new]
  ELSE IF e.op = "env" /\ st.sl[e.b].k = "E" /\ st.sl[e.b].g # 0 THEN [st EXCEPT !.gb[st.sl[e.b].g] = new]
  ELSE IF e.op = "unfence" /\ A.k = "S" THEN [st EXCEPT !.gb[A.g] = (@ \cup new) \cap DOMAIN led]
  ELSE st

RRouteBad(fam, e, st) ==
  LET A == st.sl[e.a]
      scs == {st.sc[Len(st.sc)]} \cup (IF A.c # 0 THEN {st.cs[A.c]} ELSE {})
      given == IF e.op = "box" THEN e.m ELSE 0 IN
  IF \E i \in Reqs(e, {"a", "f"}) :
        LET r == e.rq[i] mk == (r.a - 1) % 3 sc == (r.a - 1) \div 3 IN
        ~(/\ mk = given /\ sc \in scs
          /\ (r.m = -2 \/ r.m = given)
          /\ (fam = "u" \/ r.t = -2 \/ r.t = 0 \/ e.op \in {"uninit", "boxit", "boxhash"}))
  THEN {"route"} ELSE {}

RJudge(h, e, st0) ==
  IF st0.dead THEN [bad |-> {}, st |-> st0]
  ELSE IF e.op = "enter" THEN [bad |-> {}, st |-> [st0 EXCEPT !.sc = Append(@, e.num[1])]]
  ELSE IF e.op = "leave" THEN [bad |-> {}, st |-> [st0 EXCEPT !.sc = Front(@, Len(@) - 1)]]
  ELSE
  LET fam == h.fam
      pay == h.pay
      rich == pay = "rich"
      fresh == 1 + (IF st0.nd = <<>> THEN 0 ELSE CHOOSE x \in DOMAIN st0.nd : \A y \in DOMAIN st0.nd : y <= x)
      u == IF rich THEN (IF e.cr = <<>> THEN 0 ELSE e.cr[1][1])
           ELSE IF e.op = "makemut" /\ e.zc = 0 /\ (e.af > 0 \/ e.inj = 1) THEN 0 ELSE fresh
      made == IF rich THEN e.cr # <<>> ELSE e.zc > 0
      m == TLCEval(RSem(fam, pay, e, st0, u))
      lb == TLCEval(Ledger(st0.led, e.rq, {}))
      led == lb[1]
      early == Range(e.an) \cup lb[2]
               \cup (IF e.res = "crash" THEN {"crash"} ELSE IF e.res # m.res THEN {"res"} ELSE {})
               \cup (IF pay # "pod" /\ (m.made >= 0) # made THEN {"made"} ELSE {})
  IN
  IF e.res = "crash" \/ early \cap {"res", "made"} # {} THEN [bad |-> early, st |-> [st0 EXCEPT !.dead = TRUE]]
  ELSE
  LET st == TLCEval([Assign(fam, e, st0, m.st, led) EXCEPT !.led = led])
      hs == TLCEval(World(st, <<>>))
      want(i) == SlotObs(fam, st, hs, i)
      obs == Range(e.sl)
      at(i) == CHOOSE o \in obs : o.i = i
      shape == {o.i : o \in obs} = Used(st) /\ Len(e.sl) = Cardinality(Used(st))
      who(i) == at(i).k = want(i).k /\ (rich => at(i).u = want(i).u)
      live == UnionOf(st.cb, Cells(hs)) \cup UnionOf(st.gb, Groups(hs))
      place(i) == pay = "zst" \/ LET x == st.sl[i] b == at(i).bl IN
        CASE x.k \in {"S", "B"} -> b \in st.cb[x.c]
          [] x.k = "W" /\ fam = "r" -> IF x.c = 0 THEN b = 0 ELSE b \in st.cb[x.c]
          [] OTHER -> TRUE
      bad == early
        \cup (IF ~rich \/ e.inj = 1 \/ (Len(e.cr) = (IF m.made >= 0 THEN 1 ELSE 0)
                                 /\ (m.made >= 0 => e.cr[1][2] = m.made)) THEN {} ELSE {"made"})
        \cup (IF ~rich THEN (IF pay = "pod" \/ e.zd = Len(m.dr) THEN {} ELSE {"drop"})
              ELSE IF e.dr = m.dr THEN {}
              ELSE IF Len(e.dr) = Len(m.dr) /\ Range(e.dr) = Range(m.dr) THEN {} ELSE {"drop"})
        \cup (IF ~rich \/ e.lg = m.lg THEN {} ELSE {"seen"})
        \cup (IF shape THEN
                (IF \A i \in Used(st) : who(i) THEN {} ELSE {"who"})
                \cup (IF pay = "zst" \/ \A i \in Used(st) : at(i).v = want(i).v THEN {} ELSE {"val"})
                \cup (IF \A i \in Used(st) : at(i).sc = want(i).sc /\ at(i).wc = want(i).wc THEN {} ELSE {"cnt"})
                \cup (IF \A i \in Used(st) : at(i).sf = want(i).sf THEN {} ELSE {"sole"})
                \cup (IF \A i \in Used(st) : place(i) THEN {} ELSE {"place"})
              ELSE {"who"})
        \cup (IF DOMAIN led \ live # {} THEN {"kept"} ELSE {})
        \cup (IF live \ DOMAIN led # {} THEN {"gone"} ELSE {})
        \cup (IF e.op = "cmp" /\ e.res = "ok" THEN
                LET vs(i) == <<IF pay = "zst" THEN 0 ELSE st.nd[NodeAt(st, st.sl[i])].v>>
                    x == vs(e.a) y == vs(e.b) IN
                (IF CmpOk(e.num, Lex(x, y)) /\ PCmpOk(e.num, x, y) THEN {} ELSE {"cmp"})
              ELSE IF e.op = "many" /\ e.res = "ok" /\ e.num # m.num THEN
                (IF \E i \in {4, 5} \cap DOMAIN e.num : e.num[i] # m.num[i] THEN {"alone"} ELSE {})
                \cup (IF \E i \in {3} \cap DOMAIN e.num : e.num[i] # m.num[i] /\ e.m # 3 THEN {"sole"} ELSE {})
                \cup (IF \E i \in {6} \cap DOMAIN e.num : e.num[i] # m.num[i] THEN {"sole"} ELSE {})
                \cup (IF \E i \in (IF e.m = 3 THEN 1..3 ELSE {1, 2}) \cap DOMAIN e.num : e.num[i] # m.num[i] THEN {"cnt"} ELSE {})
              ELSE IF e.op = "ptreq" /\ e.num # m.num THEN {"ptreq"} ELSE {})
        \cup (IF e.res = "ok" /\ e.op \in {"view", "uninit", "boxit", "boxhash"}
                 /\ (e.num # m.num \/ ~ViewOk(fam, pay, e, st)) THEN {"view"} ELSE {})
        \cup RRouteBad(fam, e, st0)
  IN [bad |-> bad, st |-> [st EXCEPT !.dead = bad # {}]]
=============================================================================
