-------------------------------- MODULE LkSeq --------------------------------
(* The contract of Vec, SmallVec, Box<[T]> and IntoIter: what state a slot is in,   *)
(* what every operation does to it, and which observations of one step are wrong.   *)
(*                                                                                  *)
(* The same operators are used by the model (MCSeq), where an ideal implementation  *)
(* executes every operation in every reachable state, and by the trace checker      *)
(* (TraceSeq), where the steps are those recorded from the real code.               *)
EXTENDS LkBase

(* An element is <<uid, value>>. <<0, v>> in an expectation stands for any element  *)
(* created during the step with value v.                                            *)
(* A slot: [k: kind, xs: elements, cap, hp: 1 on the heap, blk: block (0 none,      *)
(* -1 inline), mk: marker it reports (-1 unknown), m: marker it was given (-1       *)
(* free), sc: scope it was made in].                                                *)
(* Kinds: "-" empty, "v" Vec, "s"/"w" SmallVec of two inline capacities, "b" boxed  *)
(* slice, "i" consuming iterator, "l" leaked slice.                                 *)

SLOTS == 0..3

EmptySlot == [k |-> "-", xs |-> <<>>, cap |-> 0, hp |-> 0, blk |-> 0, mk |-> 0, m |-> 0, sc |-> 0]

Fresh(vs) == [i \in 1..Len(vs) |-> <<0, vs[i]>>]
Uids(s) == {s[i][1] : i \in DOMAIN s}
Vals(s) == [i \in DOMAIN s |-> s[i][2]]

IsVecx(k) == k \in {"v", "s", "w"}
IsSv(k) == k \in {"s", "w"}
Inline(h, k) == IF k = "s" THEN h.N ELSE h.W

RECURSIVE FilterMask(_, _)
FilterMask(xs, m) ==
  IF xs = <<>> THEN <<>>
  ELSE (IF Bit(m, Head(xs)[2] % 16) = 1 THEN <<Head(xs)>> ELSE <<>>) \o FilterMask(Tail(xs), m)

(* Consecutive duplicates: `kept` are those kept so far. *)
Same(mode, x, y) ==   \* x tested, y the last one kept
  CASE mode = "eq" -> x = y
    [] mode = "key" -> x \div 2 = y \div 2
    [] mode = "near" -> x <= y + 1 /\ y <= x + 1
    [] mode = "merge" -> x = y
    [] OTHER -> x > y
RECURSIVE Dedup(_, _, _)
Dedup(mode, kept, xs) ==
  IF xs = <<>> THEN kept
  ELSE IF kept = <<>> THEN Dedup(mode, <<Head(xs)>>, Tail(xs))
  ELSE LET y == kept[Len(kept)] x == Head(xs) IN
    IF Same(mode, x[2], y[2])
    THEN Dedup(mode,
               IF mode = "merge" THEN [kept EXCEPT ![Len(kept)] = <<y[1], y[2] + 1>>] ELSE kept,
               Tail(xs))
    ELSE Dedup(mode, Append(kept, x), Tail(xs))
DedupMode(e) == IF e.op = "dedup" THEN "eq" ELSE IF e.op = "dedupk" THEN (IF e.m = 1 THEN "near" ELSE "key")
  ELSE CASE e.m = 0 -> "eq" [] e.m = 1 -> "near" [] e.m = 2 -> IF e.zst THEN "eq" ELSE "merge" [] OTHER -> "gt"

(* The range of a drain: <<lo, hi>> *)
DrainRange(e, L) ==
  CASE e.s = "f" -> <<0, L>>
    [] e.s = "r" -> <<e.n, e.m>>
    [] e.s = "ri" -> <<e.n, e.m + 1>>
    [] e.s = "rf" -> <<e.n, L>>
    [] e.s = "rt" -> <<0, e.m>>
    [] e.s = "rti" -> <<0, e.m + 1>>
    [] OTHER -> <<e.n + 1, e.m>>

(* What the steps of a drain over `d` yield: [out: yielded, left: rest, ob: ...]. *)
RECURSIVE DrainSteps(_, _, _, _)
DrainSteps(d, t, out, ob) ==
  IF t = <<>> THEN [out |-> out, left |-> d, ob |-> ob]
  ELSE LET c == Head(t) IN
    CASE c = "n" -> IF d = <<>> THEN DrainSteps(d, Tail(t), out, Append(ob, [x |-> <<>>, n |-> 0]))
                    ELSE DrainSteps(Tail(d), Tail(t), Append(out, d[1]), Append(ob, [x |-> <<d[1]>>, n |-> 1]))
      [] c = "b" -> IF d = <<>> THEN DrainSteps(d, Tail(t), out, Append(ob, [x |-> <<>>, n |-> 0]))
                    ELSE DrainSteps(Front(d, Len(d) - 1), Tail(t), Append(out, d[Len(d)]),
                                    Append(ob, [x |-> <<d[Len(d)]>>, n |-> 1]))
      [] c = "l" -> DrainSteps(d, Tail(t), out, Append(ob, [x |-> <<>>, n |-> Len(d)]))
      [] OTHER -> DrainSteps(d, Tail(t), out, Append(ob, [x |-> d, n |-> Len(d)]))

Ctors == {"new", "newm", "def", "cap", "capm", "tcap", "tcapm", "slice", "mslice", "arr", "iter"}
Fallible == {"tcap", "tcapm", "treserve", "treservex", "theap"}
Reserving == {"reserve", "reservex", "treserve", "treservex"}
Consuming == {"boxs", "intovec", "intoit", "boxvec", "boxsv", "fromvec", "leak"}
Ending == {"drop", "forget", "dwd"}
Neutral == {"nop", "view", "enter", "leave", "leavep", "cmp", "asv", "get", "fill", "shrinkf", "shrink",
            "theap", "toheap", "tostack"} \cup Reserving

(* ------------------------------------------------------------------ meaning      *)
(* Outcome of an operation that is neither interrupted by a panic of user code nor  *)
(* refused memory: [res: allowed outcomes, xs: new contents of slots a and b, kb:   *)
(* new kinds, ret: elements handed out (-> kept apart), ob: observations of drain]  *)

R(res, ka, xa, kb, xb, ret) ==
  [res |-> res, ka |-> ka, xa |-> xa, kb |-> kb, xb |-> xb, ret |-> ret]

Sem(e, S) ==
  LET A == S[e.a] B == S[e.b]
      x == A.xs
      L == Len(x)
      Same2(res, ret) == R(res, A.k, x, B.k, B.xs, ret)
      One(res, xs, ret) == R(res, A.k, xs, B.k, B.xs, ret)
      Refuse == Same2({"panic"}, <<>>)
      inr == e.n < L
  IN
  CASE e.op \in {"new", "newm", "def", "cap", "capm", "tcap", "tcapm"} ->
         R({"ok"}, e.s, <<>>, B.k, B.xs, <<>>)
    [] e.op \in {"slice", "mslice"} -> R({"ok"}, e.s, Fresh(e.v), B.k, B.xs, <<>>)
    [] e.op \in {"arr", "iter"} -> R({"ok"}, e.s, Fresh(e.v), B.k, B.xs, <<>>)
    [] e.op = "clone" -> R({"ok"}, A.k, x, A.k, Fresh(Vals(x)), <<>>)
    [] e.op = "append" -> R({"ok"}, A.k, x \o B.xs, B.k, <<>>, <<>>)
    [] e.op \in {"splitoff", "splitinto"} ->
         LET kb == IF e.op = "splitoff" THEN A.k ELSE IF A.k = "s" THEN "w" ELSE "s" IN
         IF e.n <= L THEN R({"ok"}, A.k, Front(x, e.n), kb, Tail1(x, e.n), <<>>)
         ELSE IF A.k = "v" /\ e.res = "ok" THEN R({"ok"}, A.k, x, kb, <<>>, <<>>)
         ELSE Refuse
    [] e.op = "push" -> One({"ok"}, x \o Fresh(e.v), <<>>)
    [] e.op = "pop" -> IF L = 0 THEN Same2({"none"}, <<>>) ELSE One({"ok"}, Front(x, L - 1), <<x[L]>>)
    [] e.op = "ins" -> IF e.n <= L THEN One({"ok"}, InsertAt(x, e.n + 1, <<0, e.v[1]>>), <<>>) ELSE Refuse
    [] e.op = "rem" -> IF inr THEN One({"ok"}, Remove(x, e.n + 1), <<x[e.n + 1]>>) ELSE Refuse
    [] e.op = "swr" -> IF inr THEN One({"ok"},
            Front([x EXCEPT ![e.n + 1] = x[L]], L - 1), <<x[e.n + 1]>>) ELSE Refuse
    [] e.op = "trunc" -> One({"ok"}, Front(x, MinOf(e.n, L)), <<>>)
    [] e.op = "setlen" -> One({"ok"}, Front(x, MinOf(e.n, L)), Tail1(x, MinOf(e.n, L)))
    [] e.op = "clear" -> One({"ok"}, <<>>, <<>>)
    [] e.op \in {"exts", "exti", "extr"} -> One({"ok"}, x \o Fresh(e.v), <<>>)
    [] e.op = "resize" -> One({"ok"}, IF e.n <= L THEN Front(x, e.n)
            ELSE x \o [i \in 1..(e.n - L) |-> <<0, e.v[1]>>], <<>>)
    [] e.op = "resizew" -> One({"ok"}, IF e.n <= L THEN Front(x, e.n)
            ELSE x \o [i \in 1..(e.n - L) |-> <<0, e.v[1] + i - 1>>], <<>>)
    [] e.op = "retain" -> One({"ok"}, FilterMask(x, e.m), <<>>)
    [] e.op \in {"dedup", "dedupk", "dedupby"} -> One({"ok"}, Dedup(DedupMode(e), <<>>, x), <<>>)
    [] e.op = "set" -> IF inr THEN One({"ok"}, [x EXCEPT ![e.n + 1] = <<0, e.v[1]>>], <<x[e.n + 1]>>) ELSE Refuse
    [] e.op = "itset" -> IF inr THEN One({"ok"}, [x EXCEPT ![e.n + 1] = <<0, e.v[1]>>], <<x[e.n + 1]>>) ELSE Refuse
    [] e.op = "get" -> IF inr THEN Same2({"ok"}, <<>>) ELSE Refuse
    [] e.op = "drain" ->
         LET r == DrainRange(e, L) IN
         IF r[1] <= r[2] /\ r[2] <= L
         THEN LET d == DrainSteps(Sub(x, r[1] + 1, r[2]), e.t, <<>>, <<>>) IN
              One({"ok"}, Front(x, r[1]) \o Tail1(x, r[2]), d.out)
         ELSE Refuse
    [] e.op = "next" -> IF L = 0 THEN Same2({"none"}, <<>>) ELSE One({"ok"}, Tail(x), <<x[1]>>)
    [] e.op = "back" -> IF L = 0 THEN Same2({"none"}, <<>>) ELSE One({"ok"}, Front(x, L - 1), <<x[L]>>)
    [] e.op \in {"boxs"} -> R({"ok"}, "b", x, B.k, B.xs, <<>>)
    [] e.op \in {"intovec", "boxvec"} -> R({"ok"}, "v", x, B.k, B.xs, <<>>)
    [] e.op = "intoit" -> R({"ok"}, "i", x, B.k, B.xs, <<>>)
    [] e.op = "leak" -> R({"ok"}, "l", x, B.k, B.xs, <<>>)
    [] e.op \in {"boxsv", "fromvec"} -> R({"ok"}, IF e.s = "w" THEN "w" ELSE "s", x, B.k, B.xs, <<>>)
    [] e.op \in Ending -> R({"ok"}, "-", <<>>, B.k, B.xs, <<>>)
    [] e.op = "tostack" -> Same2(IF A.hp = 1 /\ L > e.inl THEN {"err"} ELSE {"ok"}, <<>>)
    [] OTHER -> Same2({"ok"}, <<>>)

(* How many elements the collection in slot a is asked to hold or make room for. *)
Asked(e, S) ==
  LET L == Len(S[e.a].xs) IN
  CASE e.op \in {"cap", "capm", "tcap", "tcapm"} -> e.n
    [] e.op \in {"slice", "mslice", "arr"} -> Len(e.v)
    [] e.op = "iter" -> Len(e.v)
    [] e.op \in Reserving \cup {"theap"} -> IF e.n >= HUGE THEN HUGE ELSE L + e.n
    [] e.op = "push" -> L + 1
    [] e.op = "ins" -> L + 1
    [] e.op \in {"exts", "exti", "extr"} -> L + Len(e.v)
    [] e.op \in {"resize", "resizew"} -> MaxOf(L, e.n)
    [] e.op = "append" -> L + Len(S[e.b].xs)
    [] OTHER -> L

(* Sizes that cannot be represented. *)
HugeAsked(e, h) ==
  /\ e.n >= HUGE
  /\ e.op \in {"cap", "capm", "tcap", "tcapm", "resize", "resizew", "theap"} \cup Reserving

(* ------------------------------------------------------------------ monitor      *)

Post(e, S) ==
  LET ch == {c \in Range(e.sl) : TRUE}
      chg(i) == \E c \in ch : c.i = i
      new(i) == (CHOOSE c \in ch : c.i = i).o
  IN TLCEval([i \in SLOTS |->
       IF chg(i) THEN new(i) @@ [m |-> 0, sc |-> 0]
       ELSE S[i]])

(* Does the observed content match the expected one? *)
Match(h, created, exp, obs) ==
  /\ Len(exp) = Len(obs)
  /\ \A i \in DOMAIN exp :
       /\ h.ty = "z" \/ exp[i][2] = obs[i][2]
       /\ h.ty = "u" => IF exp[i][1] = 0 THEN obs[i][1] \in created ELSE exp[i][1] = obs[i][1]

SumLen(S) == Len(S[0].xs) + Len(S[1].xs) + Len(S[2].xs) + Len(S[3].xs)
AllUids(S) == UNION {Uids(S[i].xs) : i \in SLOTS}

Interrupted(e) == e.inj = 1
Refused(e) == e.af > 0 /\ e.res \in {"err", "panic"}

(* --- contents, results *)
SeqBad(h, e, S, P) ==
  LET m == Sem(e, S)
      cr == Created(e)
      x == S[e.a].xs
      two == e.a # e.b
      \* slots not involved stay as they are; b is involved in operations on two slots
      inv == {e.a} \cup (IF e.op \in {"clone", "append", "splitoff", "splitinto"} THEN {e.b} ELSE {})
      frame == \A i \in SLOTS \ inv : P[i].k = S[i].k /\ P[i].xs = S[i].xs
      unchanged == \A i \in SLOTS : P[i].k = S[i].k /\ (P[i].xs = S[i].xs)
      \* the contents are the old ones, possibly followed by a part of what was being added
      prefix == LET obs == P[e.a].xs exp == m.xa IN
        /\ Len(obs) >= Len(x) /\ Len(obs) <= Len(exp)
        /\ Match(h, cr, Front(exp, Len(obs)), obs)
  IN
  IF e.res = "crash" THEN {"crash"}
  ELSE IF e.res = "skip" THEN (IF unchanged THEN {} ELSE {"seq"})
  ELSE IF Interrupted(e) THEN
       (IF e.res = "panic" THEN {} ELSE {"res"})
       \cup (IF frame THEN {} ELSE {"seq"})
       \* whatever is left was there before or was created meanwhile
       \cup (IF h.ty = "u" /\ ~(AllUids(P) \subseteq AllUids(S) \cup cr) THEN {"seq"} ELSE {})
  ELSE IF Refused(e) THEN
       ReasonBad(e) \cup (IF (e.op \in Fallible) = (e.res = "err") THEN {} ELSE {"res"})
       \cup (IF e.op \in Ctors THEN (IF unchanged THEN {} ELSE {"seq"})
             ELSE IF e.op \in Consuming THEN
                  (IF frame /\ P[e.a].k = "-" THEN {} ELSE {"seq"})
             ELSE IF e.op \in {"exts", "exti", "extr", "resize", "resizew"} /\ e.n < HUGE THEN
                  (IF frame /\ P[e.a].k = S[e.a].k /\ prefix THEN {} ELSE {"seq"})
             ELSE IF unchanged THEN {} ELSE {"seq"})
  ELSE IF HugeAsked(e, h) /\ (h.ty # "z" \/ e.res # "ok") THEN
       ReasonBad(e) \cup (IF e.res = "panic" \/ (e.res = "err" /\ e.op \in Fallible) THEN {} ELSE {"res"})
       \cup (IF unchanged THEN {} ELSE {"seq"})
  ELSE
       (IF e.res \in m.res THEN {} ELSE {"res"})
       \cup (IF frame THEN {} ELSE {"seq"})
       \cup (IF e.op = "drain" /\ e.e = "F" /\ e.res = "ok" THEN
               \* forgotten: a valid collection remains
               (IF P[e.a].k = S[e.a].k /\ Range(P[e.a].xs) \subseteq Range(m.xa) \cup {<<0, 0>>}
                   /\ Len(P[e.a].xs) <= Len(m.xa) THEN {} ELSE {"seq"})
             ELSE IF P[e.a].k = m.ka /\ Match(h, cr, m.xa, P[e.a].xs) THEN {} ELSE {"seq"})
       \cup (IF e.a = e.b \/ (P[e.b].k = m.kb /\ Match(h, cr, m.xb, P[e.b].xs)) THEN {} ELSE {"seq"})
       \cup (IF e.op = "fill"
             THEN (IF Match(h, cr, e.in, e.ret) /\ e.num =
                       << IF h.ty = "z" /\ S[e.a].hp = 1 THEN INF ELSE S[e.a].cap - Len(x) >>
                       /\ Len(e.in) = MinOf(e.num[1], Len(e.v)) THEN {} ELSE {"capobs"})
             ELSE IF Match(h, cr, m.ret, e.ret) THEN {} ELSE {"ret"})
       \cup (IF e.op = "drain" /\ e.res = "ok"
             THEN LET r == DrainRange(e, Len(x))
                      d == DrainSteps(Sub(x, r[1] + 1, r[2]), e.t, <<>>, <<>>).ob IN
                  IF Len(d) = Len(e.ob) /\ \A i \in DOMAIN d :
                       d[i].n = e.ob[i].n /\ Match(h, cr, d[i].x, e.ob[i].x)
                  THEN {} ELSE {"obs"}
             ELSE {})
       \cup (IF e.op = "get" /\ e.res = "ok"
             THEN (IF e.n < Len(x) /\ Match(h, cr, [i \in 1..5 |-> x[e.n + 1]], e.seen)
                      /\ (h.ty = "z" \/ e.num = <<x[e.n + 1][2]>>) THEN {} ELSE {"ret"})
             ELSE {})
       \cup (IF e.op = "asv" THEN (IF Match(h, cr, x \o x, e.seen) THEN {} ELSE {"ret"}) ELSE {})
       \cup (IF e.op \in {"exti", "iter"} /\ Vals(e.in) # e.v /\ h.ty # "z" THEN {"seq"} ELSE {})
       \cup (IF e.op = "cmp" /\ e.res = "ok" THEN
               LET vs(q) == IF h.ty = "z" THEN [i \in DOMAIN q |-> 0] ELSE Vals(q)
                   vx == vs(x) vy == vs(S[e.b].xs) IN
               IF CmpOk(e.num, Lex(vx, vy)) /\ PCmpOk(e.num, vx, vy) THEN {} ELSE {"cmp"}
             ELSE {})

(* --- looking at a collection in every way there is: each view shows the contents where *)
(* they are (n = 1), each mutable view reverses what all others show (n = 2), printing   *)
(* prints the contents; one element after the other of a SmallVec shows each.            *)
ViewBad(h, e, S) ==
  LET x == S[e.a].xs k == S[e.a].k
      twice == [i \in 1..(2 * Len(x)) |-> x[(i + 1) \div 2]] IN
  IF e.op # "view" \/ e.res # "ok" THEN {}
  ELSE IF /\ Len(e.ob) >= 3
          /\ \A i \in DOMAIN e.ob : e.ob[i].n \in {1, 2}
                /\ Match(h, {}, IF e.ob[i].n = 1 THEN x ELSE Rev(x), e.ob[i].x)
          /\ e.txt = IF k = "i" THEN <<>> ELSE <<Printed([i \in DOMAIN x |-> IF h.ty = "z" THEN 0 ELSE x[i][2]])>>
          /\ IF IsSv(k) THEN Match(h, {}, twice, e.seen) ELSE TRUE
       THEN {} ELSE {"view"}

(* --- every element is dropped once: what was there and what was created is now    *)
(* either there or dropped                                                          *)
MayLeak(e, S) ==   \* elements that the step may leak (uids), or "any"
  LET x == S[e.a].xs L == Len(x) IN
  IF e.op \in {"dwd", "forget"} THEN Uids(x)
  ELSE IF e.op = "drain" /\ e.e = "F" /\ e.res = "ok" THEN
       LET r == DrainRange(e, L)
           d == DrainSteps(Sub(x, r[1] + 1, r[2]), e.t, <<>>, <<>>) IN
       Uids(d.left) \cup Uids(Tail1(x, r[2]))
  ELSE {}

DropBad(h, e, S, P) ==
  IF e.res = "crash" THEN {}
  ELSE IF h.ty = "u" THEN
    LET old == AllUids(S) new == AllUids(P) cr == Created(e) dr == Range(e.dr)
        lost == (old \cup cr) \ (new \cup dr) IN
    (IF new \cap dr # {} THEN {"dropped_contained"} ELSE {})
    \cup (IF Cardinality(new) # SumLen(P) THEN {"duplicate"} ELSE {})
    \cup (IF ~(dr \subseteq old \cup cr) \/ Cardinality(dr) # Len(e.dr) THEN {"dropped_other"} ELSE {})
    \cup (IF ~(new \subseteq old \cup cr) THEN {"foreign_element"} ELSE {})
    \cup (IF Interrupted(e) \/ lost \subseteq MayLeak(e, S) THEN {} ELSE {"lost"})
  ELSE IF h.ty = "z" THEN
    LET lost == SumLen(S) + e.zc - SumLen(P) - e.zd
        x == Len(S[e.a].xs)
        most == IF Interrupted(e) THEN INF
                ELSE IF e.op \in {"dwd", "forget"} THEN x
                ELSE IF e.op = "drain" /\ e.e = "F" THEN x ELSE 0 IN
    (IF lost < 0 THEN {"dropped_other"} ELSE {}) \cup (IF lost > most THEN {"lost"} ELSE {})
  ELSE {}

(* --- where a SmallVec keeps its elements *)
Exempt(e, S) ==  \* asked for in a way that leaves the choice open
  e.op \in {"boxsv", "fromvec"} \/ (e.op = "ins" /\ e.n > Len(S[e.a].xs))
StoreBad(h, e, S, P) ==
  LET A == S[e.a] PA == P[e.a] PB == P[e.b]
      sv == IsSv(PA.k)
      inl == Inline(h, PA.k)
      was == IF IsSv(A.k) THEN A.hp ELSE 0
      asked == Asked(e, S)
      to == e.op \in {"toheap", "theap"}
      two == e.op \in {"clone", "splitoff", "splitinto"} /\ e.res = "ok" /\ IsSv(PB.k)
      \* the second SmallVec was not made, but may have needed the heap
      failed == e.op = "splitinto" /\ e.res # "ok" /\ Len(A.xs) > IF A.k = "s" THEN h.W ELSE h.N
  IN
  IF e.res \in {"crash", "skip"} THEN {}
  ELSE
  (IF sv /\ ~Exempt(e, S) THEN
     (IF PA.hp = 0 /\ was = 1 /\ ~(e.op = "tostack" /\ e.res = "ok") THEN {"store"} ELSE {})
     \cup (IF PA.hp = 1 /\ was = 0 /\ asked <= inl /\ ~to THEN {"store"} ELSE {})
     \cup (IF e.res = "ok" /\ asked > inl /\ PA.hp = 0 /\ e.op # "tostack" THEN {"store"} ELSE {})
     \cup (IF e.res = "ok" /\ to /\ PA.hp = 0 THEN {"store"} ELSE {})
     \cup (IF e.res = "ok" /\ e.op = "tostack" /\ PA.hp = 1 THEN {"store"} ELSE {})
     \cup (IF PA.hp = 0 /\ was = 0 /\ asked <= inl /\ ~two /\ ~failed /\ ~to /\ Reqs(e, {"a", "r", "f", "g", "d"}) # {}
             /\ e.op # "append" THEN {"store"} ELSE {})
     \cup (IF e.op = "append" /\ P[e.b].hp # S[e.b].hp THEN {"store"} ELSE {})
   ELSE {})
  \cup (IF two THEN
          (IF (PB.hp = 1) # (Len(PB.xs) > Inline(h, PB.k)) THEN {"store"} ELSE {})
          \cup (IF PB.hp = 0 /\ Reqs(e, {"a", "r", "f", "g", "d"}) # {} THEN {"store"} ELSE {})
        ELSE {})
  \cup (IF \E i \in SLOTS : IsSv(P[i].k) /\ P[i].hp = 0 /\ P[i].cap # Inline(h, P[i].k)
        THEN {"store"} ELSE {})

(* --- capacity *)
Removing == {"pop", "rem", "swr", "trunc", "setlen", "clear", "retain", "dedup", "dedupk", "dedupby",
             "drain", "set", "get", "fill", "cmp", "asv", "nop", "view"}
Growing == {"push", "ins", "exts", "exti", "extr", "resize", "resizew", "append"} \cup Reserving
CapBad(h, e, S, P) ==
  LET A == S[e.a] PA == P[e.a] L == Len(A.xs)
      same == PA.cap = A.cap /\ PA.blk = A.blk
      asked == Asked(e, S)
      silent == Reqs(e, {"a", "r", "f", "g", "d"}) = {}
  IN
  IF e.res \in {"crash", "skip"} THEN {}
  ELSE
  (IF \E i \in SLOTS : IsVecx(P[i].k) /\ P[i].cap < Len(P[i].xs) THEN {"cap_lt_len"} ELSE {})
  \cup (IF ~IsVecx(A.k) \/ ~IsVecx(PA.k) THEN {}
        ELSE
        (IF e.op \in Removing /\ ~(same /\ silent) THEN {"cap_removed"} ELSE {})
        \cup (IF e.op \in {"splitoff", "splitinto"} /\ ~same THEN {"cap_removed"} ELSE {})
        \cup (IF e.op \in Growing /\ asked <= A.cap /\ ~(e.op = "ins" /\ e.n > L) /\ e.n < HUGE
                /\ ~(same /\ silent) THEN {"cap_realloc"} ELSE {})
        \cup (IF e.op \in Growing \cup {"theap"} /\ e.res = "ok" /\ e.n < HUGE /\ PA.cap < asked
              THEN {"cap_short"} ELSE {})
        \cup (IF e.op \in {"shrink", "shrinkf"} /\ e.res = "ok" /\ h.esz > 0 THEN
                LET want == MaxOf(L, IF e.op = "shrink" THEN e.n ELSE 0) IN
                IF A.hp = 1 /\ A.cap > want THEN (IF PA.cap = want THEN {} ELSE {"cap_shrink"})
                ELSE IF same /\ silent THEN {} ELSE {"cap_shrink"}
              ELSE {})
        \cup (IF e.op \in {"shrink", "shrinkf"} /\ e.res = "ok" /\ h.esz = 0 /\ PA.cap # A.cap
              THEN {"cap_shrink"} ELSE {})
        \cup (IF HugeAsked(e, h) /\ e.res # "ok" /\ ~same THEN {"cap_huge"} ELSE {})
        \cup (IF Refused(e) /\ ~Interrupted(e) /\ ~(e.op \in {"exts", "exti", "extr", "resize", "resizew"}) /\ ~same
              THEN {"oom_cap"} ELSE {}))
  \cup (IF e.op \in {"cap", "capm", "tcap", "tcapm"} /\ e.res = "ok" /\ h.esz > 0 /\ PA.cap < e.n
        THEN {"cap_short"} ELSE {})
  \cup (IF e.op \in Consuming \cup {"splitoff"} /\ h.esz > 0
           /\ \E i \in SLOTS : P[i].k = "b" /\ P[i].cap # Len(P[i].xs) THEN {"cap_box"} ELSE {})

Owned(P) == {P[i].blk : i \in {j \in SLOTS : P[j].blk > 0}}

(* --- routing of requests *)
(* A buffer may also grow by a new block from the allocator its last one came from. *)
RouteBad(h, e, S, P, stack, led) ==
  LET cur == stack[Len(stack)]
      A == S[e.a]
      given == CASE e.op \in {"newm", "capm", "tcapm"} -> {e.m}
                 [] e.op \in {"clone", "splitoff", "splitinto"} -> {0, 1, 2}
                 [] e.op \in Ctors -> {0}
                 [] OTHER -> IF A.m = -1 THEN {0, 1, 2} ELSE {A.m}
      scs == {cur} \cup (IF A.k # "-" THEN {A.sc} ELSE {})
      sameobj == IsVecx(A.k) /\ IsVecx(P[e.a].k)
  IN
  (IF \E i \in Reqs(e, {"a", "f"}) :
        LET r == e.rq[i] mk == (r.a - 1) % 3 sc == (r.a - 1) \div 3 IN
        ~(\/ /\ mk \in given /\ sc \in scs
             /\ (r.m = -2 \/ r.m \in given)
             /\ (r.t = -2 \/ r.t = 0)
          \/ /\ sameobj /\ A.blk \in DOMAIN led /\ led[A.blk].a = r.a
             /\ ~(e.op \in {"clone", "splitoff", "splitinto"}))
   THEN {"route"} ELSE {})
  \cup (IF e.op \in {"newm", "capm", "tcapm"} /\ e.res = "ok" /\ P[e.a].k = "v" /\ P[e.a].mk # e.m
        THEN {"marker"} ELSE {})
  \cup (IF e.op \in Ctors /\ e.res = "ok" /\ ~(e.op \in {"newm", "capm", "tcapm"}) /\ P[e.a].k = "v"
           /\ P[e.a].mk # 0 THEN {"marker"} ELSE {})
  \cup (IF A.k # "-" /\ P[e.a].k = "v" /\ A.m # -1 /\ P[e.a].mk # A.m THEN {"marker"} ELSE {})

MoveBad(e, S, P, led0, led1) ==   \* a buffer that grows stays with its allocator
  LET A == S[e.a] PA == P[e.a] IN
  IF IsVecx(A.k) /\ IsVecx(PA.k) /\ A.blk > 0 /\ PA.blk > 0
     /\ A.blk \in DOMAIN led0 /\ PA.blk \in DOMAIN led1 /\ led0[A.blk].a # led1[PA.blk].a
  THEN {"moved_allocator"} ELSE {}

(* What the model remembers about a slot besides what is observed. *)
Ghost(e, S, P, stack) ==
  LET cur == stack[Len(stack)] A == S[e.a]
      g(i) ==
        IF P[i].k = "-" THEN [m |-> 0, sc |-> 0]
        ELSE IF i = e.b /\ e.op \in {"clone", "splitoff", "splitinto"} /\ S[i].k = "-"
        THEN [m |-> P[i].mk, sc |-> cur]
        ELSE IF i = e.a /\ e.op \in Ctors
        THEN [m |-> IF e.op \in {"newm", "capm", "tcapm"} THEN e.m ELSE 0, sc |-> cur]
        ELSE [m |-> S[i].m, sc |-> S[i].sc]
  IN TLCEval([i \in SLOTS |-> [P[i] EXCEPT !.m = g(i).m, !.sc = g(i).sc]])

(* ------------------------------------------------------------------ one step     *)
(* G: led (ledger of live blocks), leak (leaked elements), lblk (leaked blocks),    *)
(* sc (stack of scopes).                                                            *)
Start == [i \in SLOTS |-> EmptySlot]
StartG == [led |-> <<>>, leak |-> {}, lblk |-> {}, sc |-> <<0>>]

EndBad(h, e, P, led, G) ==
  IF e.op # "end" THEN {}
  ELSE (IF e.res = "ok" THEN {} ELSE {"res"})
       \cup (IF h.ty = "u" /\ Uids(e.seen) # G.leak \cup AllUids(P) THEN {"end_elements"} ELSE {})
       \cup (IF Range(e.num) # G.lblk \cup Owned(P) THEN {"end_blocks"} ELSE {})

Judge(h, e0, S, G) ==
  LET e == TLCEval(e0 @@ [inl |-> Inline(h, S[e0.a].k), zst |-> h.ty = "z"])
      P == Ghost(e, S, Post(e, S), G.sc)
      lb == TLCEval(Ledger(G.led, e.rq, {}))
      led == lb[1]
      unowned == DOMAIN led \ (Owned(P) \cup G.lblk)
      mayleak == Interrupted(e) \/ e.op \in {"forget", "leak"} \/ e.res = "crash"
      common == Range(e.an) \cup lb[2]
      bad == IF e.op = "end" THEN common \cup EndBad(h, e, P, led, G) \cup DropBad(h, e, S, P)
             ELSE common
               \cup SeqBad(h, e, S, P)
               \cup ViewBad(h, e, S)
               \cup DropBad(h, e, S, P)
               \cup StoreBad(h, e, S, P)
               \cup CapBad(h, e, S, P)
               \cup RouteBad(h, e, S, P, G.sc, G.led)
               \cup MoveBad(e, S, P, G.led, led)
               \cup (IF ~mayleak /\ unowned # {} THEN {"block_kept"} ELSE {})
               \cup (IF e.res # "crash" /\ ~((Owned(P) \cup G.lblk) \subseteq DOMAIN led)
                     THEN {"block_gone"} ELSE {})
      lostu == IF h.ty # "u" THEN {}
               ELSE (AllUids(S) \cup Created(e)) \ (AllUids(P) \cup Range(e.dr))
  IN [bad |-> bad, S |-> P,
      G |-> [led |-> led,
             leak |-> G.leak \cup lostu,
             lblk |-> (G.lblk \cup unowned) \cap DOMAIN led,
             sc |-> CASE e.op = "enter" -> Append(G.sc, e.num[1])
                      [] e.op \in {"leave", "leavep"} /\ e.res # "skip" -> Front(G.sc, Len(G.sc) - 1)
                      [] OTHER -> G.sc]]
=============================================================================
