-------------------------------- MODULE LkWide --------------------------------
(* The contract of the sequences and of String for contents of any size. Contents are  *)
(* written as runs <<first, count>> of consecutive values, so that a history over      *)
(* hundreds of thousands of elements is judged as exactly as one over three.           *)
(* Two containers, a and b; every element has a value of its own.                      *)
EXTENDS LkBase

RECURSIVE WLen(_)
WLen(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[2] + WLen(Tail(rs))

(* Concatenation, in the one form in which no run can be joined to the next. *)
Cat(x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE LET p == x[Len(x)] q == y[1] IN
       IF p[1] + p[2] = q[1] THEN Sub(x, 1, Len(x) - 1) \o <<<<p[1], p[2] + q[2]>>>> \o Tail(y)
       ELSE x \o y

One(v, n) == IF n <= 0 THEN <<>> ELSE <<<<v, n>>>>

RECURSIVE WTake(_, _)
WTake(rs, n) ==
  IF rs = <<>> \/ n <= 0 THEN <<>>
  ELSE IF Head(rs)[2] >= n THEN <<<<Head(rs)[1], n>>>>
  ELSE <<Head(rs)>> \o WTake(Tail(rs), n - Head(rs)[2])
RECURSIVE WSkip(_, _)
WSkip(rs, n) ==
  IF rs = <<>> \/ n <= 0 THEN rs
  ELSE IF Head(rs)[2] > n THEN <<<<Head(rs)[1] + n, Head(rs)[2] - n>>>> \o Tail(rs)
  ELSE WSkip(Tail(rs), n - Head(rs)[2])
WMid(rs, i, j) == WSkip(WTake(rs, j), i)     \* positions i .. j-1

(* All but the values lo .. hi-1; and only those. *)
RECURSIVE WExcept(_, _, _)
WExcept(rs, lo, hi) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) e == r[1] + r[2] IN
       Cat(Cat(One(r[1], MinOf(e, lo) - r[1]), One(MaxOf(r[1], hi), e - MaxOf(r[1], hi))),
           WExcept(Tail(rs), lo, hi))
RECURSIVE WOnly(_, _, _)
WOnly(rs, lo, hi) ==
  IF rs = <<>> THEN <<>>
  ELSE LET r == Head(rs) s == MaxOf(r[1], lo) IN
       Cat(One(s, MinOf(r[1] + r[2], hi) - s), WOnly(Tail(rs), lo, hi))

(* The first of each group of neighbours with the same v \div d; and the others. *)
RECURSIVE WFirsts(_, _, _)
WFirsts(rs, d, key) ==
  IF rs = <<>> THEN <<>>
  ELSE LET v == Head(rs)[1] q == v \div d m == MinOf(Head(rs)[2], ((q + 1) * d) - v)
           rest == WFirsts(WSkip(rs, m), d, q) IN
       IF q = key THEN rest ELSE Cat(One(v, 1), rest)
RECURSIVE WRests(_, _, _)
WRests(rs, d, key) ==
  IF rs = <<>> THEN <<>>
  ELSE LET v == Head(rs)[1] q == v \div d m == MinOf(Head(rs)[2], ((q + 1) * d) - v)
           rest == WRests(WSkip(rs, m), d, q) IN
       Cat(IF q = key THEN One(v, m) ELSE One(v + 1, m - 1), rest)

Shift(rs, by) == [i \in DOMAIN rs |-> <<rs[i][1] + by, rs[i][2]>>]

(* Values that each occur once, in ascending order. *)
RECURSIVE InsRun(_, _)
InsRun(rs, r) == IF rs = <<>> THEN <<r>> ELSE IF r[1] < rs[1][1] THEN <<r>> \o rs ELSE <<rs[1]>> \o InsRun(Tail(rs), r)
RECURSIVE SortRuns(_)
SortRuns(rs) == IF rs = <<>> THEN <<>> ELSE InsRun(SortRuns(Tail(rs)), Head(rs))
RECURSIVE Join(_)
Join(rs) == IF rs = <<>> THEN <<>> ELSE Cat(<<Head(rs)>>, Join(Tail(rs)))
AsSet(rs) == Join(SortRuns(rs))

(* Copies of elements have values of their own, those of the originals moved by what   *)
(* was the next free value. Characters are the same in a copy.                         *)
By(text, nx) == IF text THEN 0 ELSE nx
Then(text, nx) == IF text THEN nx ELSE 2 * nx

(* The order of contents. *)
RECURSIVE WLex(_, _)
WLex(x, y) ==
  IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1)
  ELSE IF y = <<>> THEN 1
  ELSE LET p == x[1] q == y[1] m == MinOf(p[2], q[2]) IN
       IF p[1] # q[1] THEN (IF p[1] < q[1] THEN -1 ELSE 1) ELSE WLex(WSkip(x, m), WSkip(y, m))
(* Copies of the last copying compare as their originals. *)
WKey(rs, by) == IF by = 0 THEN rs ELSE
  LET f(r) == Cat(One(r[1], MinOf(r[1] + r[2], by) - r[1]),
                  LET s == MaxOf(r[1], by) IN One(s - by, (r[1] + r[2]) - s))
      g[i \in 0..Len(rs)] == IF i = 0 THEN <<>> ELSE g[i - 1] \o f(rs[i])
  IN TLCEval(g[Len(rs)])
WCmp(x, y) == LET o == WLex(x, y) IN <<B01(o = 0), B01(o # 0), o, B01(o = 0), 1>>

WStart == [a |-> <<>>, b |-> <<>>, nx |-> 1, by |-> 0, dead |-> FALSE]

(* o: op, i, j, n; what results: contents, next value, destroyed, yielded front/back.   *)
WSem(text, o, st) ==
  LET a == st.a b == st.b nx == st.nx
      R(x, y, gone) == [a |-> x, b |-> y, nx |-> nx, gone |-> gone, y1 |-> <<>>, y2 |-> <<>>]
  IN
  CASE o.op \in {"ext", "push", "rw", "room"} -> [R(Cat(a, One(nx, o.n)), b, <<>>) EXCEPT !.nx = nx + o.n]
    [] o.op = "trunc" -> R(WTake(a, o.n), b, WSkip(a, o.n))
    [] o.op = "clear" -> R(<<>>, b, a)
    [] o.op = "drain" ->   \* positions i..j-1; n taken from the front and m from the back
         LET d == WMid(a, o.i, o.j) k == MinOf(o.n, WLen(d)) m == MinOf(o.m, WLen(d) - k) IN
         [R(Cat(WTake(a, o.i), WSkip(a, o.j)), b, d) EXCEPT !.y1 = WTake(d, k), !.y2 = WSkip(d, WLen(d) - m)]
    [] o.op = "into" ->    \* consuming iteration; what is not taken is dropped
         LET k == MinOf(o.n, WLen(a)) m == MinOf(o.m, WLen(a) - k) IN
         [R(<<>>, b, a) EXCEPT !.y1 = WTake(a, k), !.y2 = WSkip(a, WLen(a) - m)]
    [] o.op = "split" -> R(WTake(a, o.i), WSkip(a, o.i), b)
    [] o.op = "new" -> R(a, <<>>, b)
    [] o.op = "append" -> R(Cat(a, b), <<>>, <<>>)
    [] o.op = "swap" -> R(b, a, <<>>)
    [] o.op = "ins" -> [R(Cat(Cat(WTake(a, o.i), One(nx, 1)), WSkip(a, o.i)), b, <<>>) EXCEPT !.nx = nx + 1]
    [] o.op = "insb" -> R(Cat(Cat(WTake(a, o.i), b), WSkip(a, o.i)), b, <<>>)
    [] o.op = "rem" -> [R(Cat(WTake(a, o.i), WSkip(a, o.i + 1)), b, WMid(a, o.i, o.i + 1)) EXCEPT !.y1 = WMid(a, o.i, o.i + 1)]
    [] o.op = "srem" ->
         LET l == WLen(a) x == WMid(a, o.i, o.i + 1) IN
         [R(IF o.i + 1 >= l THEN WTake(a, l - 1)
            ELSE Cat(Cat(WTake(a, o.i), WSkip(a, l - 1)), WMid(a, o.i + 1, l - 1)), b, x) EXCEPT !.y1 = x]
    [] o.op = "pop" ->     \* n times
         LET k == MaxOf(0, WLen(a) - o.n) IN [R(WTake(a, k), b, WSkip(a, k)) EXCEPT !.y2 = WSkip(a, k)]
    [] o.op = "retain" -> R(WExcept(a, o.i, o.j), b, WOnly(a, o.i, o.j))
    [] o.op = "dedup" -> R(WFirsts(a, o.n, -1), b, WRests(a, o.n, -1))
    [] o.op = "clone" -> [R(a, Shift(a, By(text, nx)), b) EXCEPT !.nx = Then(text, nx)]
    [] o.op = "exts" -> [R(Cat(a, Shift(b, By(text, nx))), b, <<>>) EXCEPT !.nx = Then(text, nx)]
    [] o.op = "end" -> R(<<>>, <<>>, a \o b)
    [] o.op = "recode" -> R(a, a, <<>>)   \* b: what a's text encoded (UTF-8, UTF-16) decodes to
    [] OTHER -> R(a, b, <<>>)              \* shrink, heap, stack: another place, same contents

WJudge(h, e, st) ==
  LET text == h.k = "str"
      m == TLCEval(WSem(text, e, st))
      bad == IF st.dead THEN {}
        ELSE IF e.res # "ok" THEN {"crash"}
        ELSE (IF e.a = m.a /\ e.b = m.b THEN {} ELSE {"content"})
          \cup (IF e.len = WLen(m.a) THEN {} ELSE {"length"})
          \cup (IF e.y1 = m.y1 /\ e.y2 = m.y2 THEN {} ELSE {"yield"})
          \cup (IF text \/ e.gone = AsSet(m.gone) THEN {} ELSE {"gone"})
          \cup (IF e.twice = 0 THEN {} ELSE {"twice"})
          \cup (IF e.cap >= WLen(m.a) /\ (e.op = "shrink" /\ h.k = "vec" => e.cap = WLen(m.a)) THEN {}
                ELSE {"capacity"})
          \cup (IF e.op = "cmp" => e.num = WCmp(WKey(m.a, st.by), WKey(m.b, st.by)) THEN {} ELSE {"order"})
          \cup (IF e.op = "new" => e.num[1] >= e.n THEN {} ELSE {"capacity"})
          (* room that was made takes what it was made for without another block *)
          \cup (IF e.op = "room" => e.num[1] >= WLen(m.a) /\ e.num[2] = 1 THEN {} ELSE {"capacity"})
          \cup (IF e.op = "shrto" =>
                  LET want == MaxOf(e.num[3], e.n) IN
                  IF h.k \in {"vec", "str"} THEN e.num[2] = MinOf(want, e.num[1]) ELSE e.num[2] >= MinOf(want, e.num[1])
                THEN {} ELSE {"capacity"})
          \cup (IF e.mem = 0 /\ (e.op = "end" => e.blocks = 0) THEN {} ELSE {"memory"})
  IN [bad |-> bad, st |-> [a |-> m.a, b |-> m.b, nx |-> m.nx,
                           by |-> IF e.op \in {"clone", "exts"} /\ ~text THEN st.nx ELSE st.by, dead |-> st.dead \/ bad # {}]]
=============================================================================
