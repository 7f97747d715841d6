-------------------------------- MODULE MCSeq --------------------------------
(* The model of Vec / SmallVec / Box<[T]> / IntoIter: an ideal implementation that  *)
(* executes every operation of a bounded set in every reachable state, producing    *)
(* the very events the driver of the real code records. TLC explores all of it,     *)
(* checks that the contract (LkSeq!Judge) accepts each event and that the           *)
(* invariants hold, and prints for every transition the shortest history that       *)
(* performs it: those histories are then replayed into the real code.               *)
EXTENDS LkSeq, IOUtils

CONSTANTS MaxLen, MaxLen1, Ns, Vals2, Emit

VARIABLES h, S, G, nxt, blk, hist, last
vars == <<h, S, G, nxt, blk, hist, last>>

(* ---- operations, as the scripts of the driver write them *)
O(op) == [op |-> op, a |-> 0, b |-> 0, n |-> 0, m |-> 0, s |-> "", t |-> <<>>, e |-> "", v |-> <<>>]

RECURSIVE Join(_, _)
Join(v, sep) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN ToString(v[1])
                ELSE ToString(v[1]) \o sep \o Join(Tail(v), sep)
RECURSIVE Cat(_)
Cat(v) == IF v = <<>> THEN "" ELSE v[1] \o Cat(Tail(v))
Line(o) ==
  o.op \o " a=" \o ToString(o.a) \o
  (IF o.b # 0 THEN " b=" \o ToString(o.b) ELSE "") \o
  (IF o.n # 0 THEN " n=" \o ToString(o.n) ELSE "") \o
  (IF o.m # 0 THEN " m=" \o ToString(o.m) ELSE "") \o
  (IF o.s # "" THEN " s=" \o o.s ELSE "") \o
  (IF o.t # <<>> THEN " t=" \o Cat(o.t) ELSE "") \o
  (IF o.e # "" THEN " e=" \o o.e ELSE "") \o
  (IF o.v # <<>> THEN " v=" \o Join(o.v, ",") ELSE "")

Kinds == {"v", "s", "w"}
V1 == Vals2
Lists(n) == UNION {[1..k -> Vals2] : k \in 0..n}
Steps == {<<>>, <<"n">>, <<"b">>, <<"n", "n">>, <<"b", "b">>, <<"n", "b">>, <<"b", "n">>, <<"n", "b", "n">>,
          <<"b", "l", "s">>, <<"n", "b", "n", "b", "l">>}

Create == {[O("new") EXCEPT !.s = k] : k \in Kinds}
  \cup {[O("newm") EXCEPT !.s = k, !.m = 1] : k \in Kinds}
  \cup {[O("cap") EXCEPT !.s = k, !.n = n] : k \in Kinds, n \in {1, 3}}
  \cup {[O("tcapm") EXCEPT !.s = k, !.n = 2, !.m = 2] : k \in Kinds}
  \cup {[O(o) EXCEPT !.s = k, !.v = v] : o \in {"arr", "iter", "slice"}, k \in Kinds, v \in Lists(2)}
Create1 == {[O("iter") EXCEPT !.s = k, !.v = v, !.a = 1] : k \in Kinds, v \in Lists(1)}

Mutate(L) ==
  {[O("push") EXCEPT !.v = <<v>>] : v \in V1}
  \cup {O("pop"), O("clear"), O("dedup"), O("shrinkf"), O("toheap"), O("tostack"), O("asv"), O("view")}
  \cup {[O("ins") EXCEPT !.n = n, !.v = <<v>>] : n \in 0..(L + 1), v \in V1}
  \cup {[O(o) EXCEPT !.n = n] : o \in {"rem", "swr", "trunc", "get"}, n \in 0..(L + 1)}
  \cup {[O(o) EXCEPT !.v = v] : o \in {"exts", "exti"}, v \in Lists(2)}
  \cup {[O(o) EXCEPT !.n = n, !.v = <<1>>] : o \in {"resize", "resizew"}, n \in 0..MaxLen}
  \cup {[O("retain") EXCEPT !.m = m] : m \in {0, 2, 4, 6}}
  \cup {[O("dedupby") EXCEPT !.m = m] : m \in 0..3}
  \cup {[O("dedupk") EXCEPT !.m = m] : m \in 0..1}
  \cup {[O("set") EXCEPT !.n = n, !.v = <<2>>] : n \in 0..L}
  \cup {[O("drain") EXCEPT !.n = n, !.m = m, !.t = t, !.e = "D", !.s = "r"] : n \in 0..L, m \in 0..L, t \in Steps}
  \cup {[O("drain") EXCEPT !.n = n, !.m = m, !.e = "F", !.s = "r"] : n \in 0..L, m \in 0..L}
  \cup {[O("drain") EXCEPT !.n = n, !.m = m, !.e = "D", !.s = s] : n \in 0..1, m \in 0..L, s \in {"f", "ri", "rf", "rt", "rti", "x"}}
  \cup {[O(o) EXCEPT !.n = n] : o \in {"reserve", "treserve", "reservex", "theap", "shrink"}, n \in {0, 1, 3}}
  \cup {[O("splitoff") EXCEPT !.n = n, !.b = 1] : n \in 0..(L + 1)}
  \cup {[O("splitinto") EXCEPT !.n = n, !.b = 1] : n \in 0..L}
  \cup {[O(o) EXCEPT !.b = 1] : o \in {"clone", "append", "cmp"}}
  \cup {[O("append") EXCEPT !.a = 1]}
  \cup {O("boxs"), O("intovec"), O("intoit"), O("leak"), O("dwd"), [O("fromvec") EXCEPT !.s = "s"], [O("fromvec") EXCEPT !.s = "w"]}

Ops ==
  LET A == S[0] B == S[1] L == Len(A.xs) IN
  CASE A.k = "-" -> Create
    [] A.k = "i" -> {O("next"), O("back"), O("view"), O("drop"), O("forget")} \cup {[O("itset") EXCEPT !.n = n, !.v = <<2>>] : n \in 0..L}
    [] A.k = "b" -> {O("boxvec"), O("view"), [O("boxsv") EXCEPT !.s = "s"], [O("boxsv") EXCEPT !.s = "w"], O("drop"), O("forget")}
    [] A.k = "l" -> {}
    [] OTHER -> Mutate(L) \cup {O("drop"), O("forget")}
                \cup (IF B.k = "-" THEN Create1 ELSE {[O("drop") EXCEPT !.a = 1]})
    

Enabled(o) ==
  LET A == S[o.a] B == S[o.b] IN
  CASE o.op \in {"clone", "splitoff"} -> B.k = "-"
    [] o.op = "splitinto" -> B.k = "-" /\ A.k \in {"s", "w"}
    [] o.op \in {"append", "cmp"} -> A.k = B.k /\ o.a # o.b /\ A.k \in Kinds
    [] o.op \in {"toheap", "tostack", "theap", "intovec"} -> A.k \in {"s", "w"}
    [] o.op \in {"intoit", "leak", "dwd", "fromvec"} -> A.k = "v"
    [] OTHER -> TRUE

(* ---- the ideal implementation *)
Concrete(xs, c) == [i \in DOMAIN xs |-> IF xs[i][1] = 0 THEN <<c + i, xs[i][2]>> ELSE xs[i]]

(* Storage of slot i after the step: [hp, cap] *)
Storage(k, xs, old, asked, o, e) ==
  LET inl == Inline(h, k) IN
  CASE k = "-" -> [hp |-> 0, cap |-> 0]
    [] k = "v" -> [hp |-> 1, cap |-> IF o.op \in {"shrinkf", "shrink"} THEN MinOf(old.cap, MaxOf(Len(xs), o.n))
                                     ELSE IF old.k = "v" \/ o.op \in {"intovec", "boxvec"} THEN MaxOf(MaxOf(IF old.k \in Kinds THEN old.cap ELSE 0, Len(xs)), asked)
                                     ELSE MaxOf(asked, Len(xs))]
    [] k \in {"s", "w"} ->
         LET hp == CASE o.op = "tostack" -> IF Len(xs) > inl THEN 1 ELSE 0
                     [] o.op \in {"toheap", "theap"} -> 1
                     [] old.k = k /\ old.hp = 1 -> 1
                     [] OTHER -> IF asked > inl \/ Len(xs) > inl THEN 1 ELSE 0 IN
         [hp |-> hp,
          cap |-> IF hp = 0 THEN inl
                  ELSE IF old.k = k /\ old.hp = 1 /\ o.op \in {"shrinkf", "shrink"}
                       THEN MinOf(old.cap, MaxOf(Len(xs), o.n))
                  ELSE MaxOf(IF old.k = k THEN old.cap ELSE 0, MaxOf(asked, Len(xs)))]
    [] OTHER -> [hp |-> 1, cap |-> Len(xs)]

HasBlk(s) == s.hp = 1 /\ s.cap > 0 /\ s.k \notin {"-"}

Exec(o) ==
  LET e0 == o @@ [res |-> "x", inl |-> Inline(h, S[o.a].k), zst |-> FALSE]
      m == TLCEval(Sem(e0, S))
      res == CHOOSE r \in m.res : TRUE
      xa == TLCEval(Concrete(m.xa, nxt))
      xb == IF o.b = o.a THEN xa ELSE TLCEval(Concrete(m.xb, nxt + 100))
      fill == o.op = "fill"
      new(xs, ys) == {x \in Range(xs) : x \notin Range(ys)}
      P0 == [S EXCEPT ![o.a].xs = xa, ![o.a].k = m.ka, ![o.b].xs = xb,
                      ![o.b].k = IF o.a = o.b THEN m.ka ELSE m.kb]
      asked == Asked(o, S)
      st(i) == IF res = "panic" THEN [hp |-> S[i].hp, cap |-> S[i].cap]
               ELSE IF i = o.a THEN Storage(P0[i].k, P0[i].xs, S[i], asked, o, e0)
               ELSE IF i = o.b THEN Storage(P0[i].k, P0[i].xs, S[i], Len(P0[i].xs), O("nop"), e0)
               ELSE [hp |-> S[i].hp, cap |-> S[i].cap]
      P1 == TLCEval([i \in SLOTS |-> [P0[i] EXCEPT !.hp = st(i).hp, !.cap = st(i).cap]])
      \* blocks
      keep(i) == HasBlk(S[i]) /\ HasBlk(P1[i]) /\ S[i].cap = P1[i].cap /\ P1[i].hp = S[i].hp
      al(i) == IF HasBlk(S[i]) THEN G.led[S[i].blk].a
               ELSE LET mk == IF i = o.a /\ o.op \in {"newm", "capm", "tcapm"} THEN o.m
                              ELSE IF S[i].k # "-" /\ S[i].m >= 0 THEN S[i].m ELSE 0 IN
                    (IF S[i].k # "-" THEN S[i].sc ELSE 0) * 3 + mk + 1
      wants(i) == IF HasBlk(P1[i]) THEN IF keep(i) THEN S[i].blk ELSE blk + 1 + i ELSE IF P1[i].k # "-" /\ P1[i].hp = 0 /\ P1[i].k \in {"s", "w"} THEN -1 ELSE 0
      rqof(i) ==
        LET r(k, b, s, b2, s2) == [k |-> k, b |-> b, a |-> al(i), s |-> s, al |-> h.al, b2 |-> b2, s2 |-> s2, m |-> (al(i) - 1) % 3, t |-> 0] IN
        IF keep(i) \/ o.op \in {"forget", "leak"} THEN <<>>
        ELSE IF HasBlk(S[i]) /\ HasBlk(P1[i]) THEN <<r("r", S[i].blk, S[i].cap * h.esz, blk + 1 + i, P1[i].cap * h.esz)>>
        ELSE IF HasBlk(S[i]) THEN <<r("d", S[i].blk, S[i].cap * h.esz, 0, 0)>>
        ELSE IF HasBlk(P1[i]) THEN <<r("a", blk + 1 + i, P1[i].cap * h.esz, 0, 0)>>
        ELSE <<>>
      mk(i) == IF P1[i].k = "v" THEN IF S[i].k # "-" /\ S[i].m >= 0 /\ o.op # "boxvec" THEN S[i].m
                                     ELSE IF i = o.a /\ o.op \in {"newm", "capm", "tcapm"} THEN o.m
                                     ELSE IF S[i].m >= 0 THEN S[i].m ELSE 0
               ELSE IF P1[i].k \in {"s", "w"} THEN -1 ELSE 0
      P == TLCEval([i \in SLOTS |-> [P1[i] EXCEPT !.blk = IF o.op = "leak" /\ i = o.a THEN S[i].blk ELSE wants(i), !.mk = mk(i)]])
      old == AllUids(S)
      cre == [i \in DOMAIN xa |-> xa[i]] \o (IF o.a = o.b THEN <<>> ELSE xb)
      crs == SelectSeq(cre, LAMBDA x : x[1] \notin old)
      gone == (old \cup Uids(crs)) \ AllUids(P)
      kept == MayLeak(e0 @@ [res |-> res], S)
      gen == o.op = "drain" /\ res = "ok"
      dst == IF gen THEN LET r == DrainRange(o, Len(S[o.a].xs)) IN
                DrainSteps(SubSeq(S[o.a].xs, r[1] + 1, r[2]), o.t, <<>>, <<>>).ob ELSE <<>>
      set2seq == LET RECURSIVE F(_) F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o F(X \ {x}) IN F(gone \ kept)
      cmpn == LET x == Vals(S[o.a].xs) y == Vals(S[o.b].xs) c == Lex(x, y) b(q) == IF q THEN 1 ELSE 0 IN
              <<b(c = 0), b(c # 0), c, c, b(c < 0), b(c <= 0), b(c > 0), b(c >= 0), b(c = 0), 1, 1>> \o PSeen(x, y) \o PSeen(x, x)
  IN [ev |-> o @@ [res |-> res, inj |-> 0, af |-> 0, why |-> 0, pk |-> 0, in |-> IF o.op \in {"exti", "iter"} THEN crs ELSE <<>>,
                   ret |-> m.ret,
                   seen |-> CASE o.op = "get" /\ res = "ok" -> [i \in 1..5 |-> S[0].xs[o.n + 1]]
                              [] o.op = "asv" -> S[0].xs \o S[0].xs
                              [] o.op = "view" /\ IsSv(S[0].k) -> [i \in 1..(2 * Len(S[0].xs)) |-> S[0].xs[(i + 1) \div 2]]
                              [] OTHER -> <<>>,
                   num |-> CASE o.op = "cmp" -> cmpn
                             [] o.op = "get" /\ res = "ok" -> <<S[0].xs[o.n + 1][2]>> [] OTHER -> <<>>,
                   ob |-> IF o.op = "view" THEN <<[x |-> S[0].xs, n |-> 1], [x |-> S[0].xs, n |-> 1], [x |-> Rev(S[0].xs), n |-> 2]>> ELSE dst,
                   txt |-> IF o.op = "view" /\ S[0].k # "i" THEN <<Printed(Vals(S[0].xs))>> ELSE <<>>, an |-> <<>>, dr |-> set2seq,
                   cr |-> [i \in DOMAIN crs |-> <<crs[i][1], crs[i][2], 0>>], lg |-> <<>>, zd |-> 0, zc |-> 0,
                   rq |-> rqof(0) \o rqof(1),
                   sl |-> LET f(i) == [i |-> i, o |-> [x \in DOMAIN P[i] \ {"m", "sc"} |-> P[i][x]]] IN
                          (IF P[0] # S[0] THEN <<f(0)>> ELSE <<>>) \o (IF P[1] # S[1] THEN <<f(1)>> ELSE <<>>)],
      P |-> P]

Heads == {[ty |-> "u", N |-> n, W |-> 3, esz |-> 8, al |-> 4] : n \in Ns}

Init == /\ h \in Heads
        /\ S = Start /\ G = StartG /\ nxt = 0 /\ blk = 0 /\ hist = "" /\ last = {}

Do(o) ==
  LET x == TLCEval(Exec(o))
      j == TLCEval(Judge(h, x.ev, S, G))
      hi == hist \o ";" \o Line(o) IN
  /\ S' = j.S /\ G' = j.G
  /\ last' = j.bad
  /\ nxt' = nxt + 200 /\ blk' = blk + 2
  /\ hist' = hi
  /\ Emit => PrintT("SC|" \o ToString(h.N) \o "|" \o hi)
  /\ UNCHANGED h

Next == \E o \in Ops : Enabled(o) /\ Do(o)

Spec == Init /\ [][Next]_vars

Small == /\ Len(S[0].xs) <= MaxLen /\ Len(S[1].xs) <= MaxLen1
         /\ \A i \in {0, 1} : Range(Vals(S[i].xs)) \subseteq Vals2

(* Two states are the same test-wise when kinds, storage, contents (up to identity) *)
(* and the presence of spare room agree.                                            *)
Sig(i) == <<S[i].k, S[i].hp, Vals(S[i].xs), S[i].cap > Len(S[i].xs)>>
View == <<h.N, Sig(0), Sig(1), last>>

(* ---- what must hold of the ideal implementation *)
Accepted == last = {}
Sane ==
  /\ \A i \in SLOTS : IsVecx(S[i].k) => S[i].cap >= Len(S[i].xs)
  /\ \A i \in SLOTS : IsSv(S[i].k) /\ S[i].hp = 0 => S[i].cap = Inline(h, S[i].k) /\ S[i].blk = -1
  /\ Cardinality(AllUids(S)) = SumLen(S)                    \* no element in two places
  /\ AllUids(S) \cap G.leak = {}
  /\ DOMAIN G.led = Owned(S) \cup G.lblk                    \* every live block has an owner
  /\ \A i, j \in SLOTS : i # j /\ S[i].blk > 0 => S[i].blk # S[j].blk
=============================================================================
