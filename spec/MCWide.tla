-------------------------------- MODULE MCWide --------------------------------
(* Runs stand for sequences: TLC runs every short history over two containers in both  *)
(* forms, the runs of LkWide and plain sequences with the operations as one would      *)
(* write them element by element, and checks that they always agree. The histories     *)
(* are replayed into the real code with every count multiplied.                        *)
EXTENDS LkWide

CONSTANTS Depth, Emit

VARIABLES st, a, b, nx, hist, n, last
vars == <<st, a, b, nx, hist, n, last>>

RECURSIVE Expand(_)
Expand(rs) == IF rs = <<>> THEN <<>> ELSE [i \in 1..Head(rs)[2] |-> Head(rs)[1] + i - 1] \o Expand(Tail(rs))
Kept(s, P(_)) == SelectSeq(s, P)
Plain(lo, k) == [i \in 1..k |-> lo + i - 1]

RECURSIVE Heads(_, _, _)
Heads(s, d, key) == IF s = <<>> THEN <<>>
  ELSE IF Head(s) \div d = key THEN Heads(Tail(s), d, key)
  ELSE <<Head(s)>> \o Heads(Tail(s), d, Head(s) \div d)

(* [a, b, gone: set, y1, y2, nx] *)
Exec(o) ==
  LET R(x, y) == [a |-> x, b |-> y, y1 |-> <<>>, y2 |-> <<>>, nx |-> nx]
      up(s) == [i \in DOMAIN s |-> s[i] + nx]
      keep(v) == v < o.i \/ v >= o.j
      L == Len(a) IN
  CASE o.op = "ext" -> [R(a \o Plain(nx, o.n), b) EXCEPT !.nx = nx + o.n]
    [] o.op = "room" -> [R(a \o Plain(nx, o.n), b) EXCEPT !.nx = nx + o.n]
    [] o.op = "new" -> R(a, <<>>)
    [] o.op = "cmp" -> R(a, b)
    [] o.op = "trunc" -> R(Front(a, o.n), b)
    [] o.op = "drain" ->
         LET d == Sub(a, o.i + 1, o.j) k == MinOf(o.n, Len(d)) m == MinOf(o.m, Len(d) - k) IN
         [R(Front(a, o.i) \o Tail1(a, o.j), b) EXCEPT !.y1 = Front(d, k), !.y2 = Tail1(d, Len(d) - m)]
    [] o.op = "into" ->
         LET k == MinOf(o.n, L) m == MinOf(o.m, L - k) IN
         [R(<<>>, b) EXCEPT !.y1 = Front(a, k), !.y2 = Tail1(a, L - m)]
    [] o.op = "split" -> R(Front(a, o.i), Tail1(a, o.i))
    [] o.op = "append" -> R(a \o b, <<>>)
    [] o.op = "swap" -> R(b, a)
    [] o.op = "ins" -> [R(InsertAt(a, o.i + 1, nx), b) EXCEPT !.nx = nx + 1]
    [] o.op = "rem" -> [R(Remove(a, o.i + 1), b) EXCEPT !.y1 = <<a[o.i + 1]>>]
    [] o.op = "srem" -> [R(Front([a EXCEPT ![o.i + 1] = a[L]], L - 1), b) EXCEPT !.y1 = <<a[o.i + 1]>>]
    [] o.op = "pop" -> LET k == MaxOf(0, L - o.n) IN [R(Front(a, k), b) EXCEPT !.y2 = Tail1(a, k)]
    [] o.op = "retain" -> R(Kept(a, keep), b)
    [] o.op = "dedup" -> R(Heads(a, o.n, -1), b)
    [] o.op = "clone" -> [R(a, up(a)) EXCEPT !.nx = 2 * nx]
    [] o.op = "exts" -> [R(a \o up(b), b) EXCEPT !.nx = 2 * nx]

O(op) == [op |-> op, i |-> 0, j |-> 0, n |-> 0, m |-> 0]
Ops ==
  {[O("ext") EXCEPT !.n = k] : k \in {1, 2, 3}}
  \cup {O("append"), O("swap"), O("clone"), O("exts")}
  \cup {[O("room") EXCEPT !.n = 2, !.m = 1]}
  \cup (IF b = <<>> THEN {} ELSE {[O("new") EXCEPT !.n = 1]})
  \cup (IF hist # "" /\ ToString(a) # ToString(b) THEN {O("cmp")} ELSE {})
  \cup (IF a = <<>> THEN {} ELSE
       {[O("trunc") EXCEPT !.n = k] : k \in {0, 1, Len(a)}}
       \cup {[O("drain") EXCEPT !.i = i, !.j = j, !.n = k, !.m = k] : i \in {0, 1}, j \in {1, Len(a) - 1, Len(a)}, k \in {0, 1}}
       \cup {[O("into") EXCEPT !.n = k, !.m = m] : k \in {0, 1}, m \in {0, 2}}
       \cup {[O(q) EXCEPT !.i = i] : q \in {"split", "ins", "rem", "srem"}, i \in {0, Len(a) \div 2, Len(a) - 1}}
       \cup {[O("pop") EXCEPT !.n = k] : k \in {1, 2}}
       \cup {[O("retain") EXCEPT !.i = i, !.j = i + k] : i \in {1, 2}, k \in {1, 2}}
       \cup {[O("dedup") EXCEPT !.n = k] : k \in {2, 3}})
Ok(o) == /\ o.i <= Len(a) /\ (o.op = "drain" => o.i <= o.j /\ o.j <= Len(a))
         /\ (o.op \in {"clone", "exts"} => nx < 20)

Line(o) == o.op \o " i=" \o ToString(o.i) \o " j=" \o ToString(o.j) \o " n=" \o ToString(o.n) \o " m=" \o ToString(o.m)

Init == st = WStart /\ a = <<>> /\ b = <<>> /\ nx = 1 /\ hist = "" /\ n = 0 /\ last = TRUE

Next == /\ n < Depth
        /\ \E o \in {x \in Ops : Ok(x)} :
           LET m == TLCEval(WSem(FALSE, o, st))
               p == TLCEval(Exec(o))
               hi == hist \o ";" \o Line(o)
               before == Range(a) \cup Range(b)
               after == Range(p.a) \cup Range(p.b) IN
           /\ st' = [st EXCEPT !.a = m.a, !.b = m.b, !.nx = m.nx,
                               !.by = IF o.op \in {"clone", "exts"} THEN nx ELSE @]
           /\ a' = p.a /\ b' = p.b /\ nx' = p.nx
           /\ hist' = hi /\ n' = n + 1
           /\ last' = /\ Expand(m.y1) = p.y1 /\ Expand(m.y2) = p.y2
                      /\ Range(Expand(AsSet(m.gone))) = before \ after
                      /\ WLex(m.a, m.b) = Lex(p.a, p.b)
                      /\ WLen(AsSet(m.gone)) = Cardinality(before \ after)
           /\ Emit => PrintT("SC|" \o hi)
Spec == Init /\ [][Next]_vars
View == <<st, a, b, nx, n, last>>

Agree == Expand(st.a) = a /\ Expand(st.b) = b /\ st.nx = nx /\ last
(* Comparing copies as their originals. *)
Keyed(s) == [i \in DOMAIN s |-> IF s[i] >= st.by THEN s[i] - st.by ELSE s[i]]
Orders == LET o == Lex(Keyed(a), Keyed(b)) IN WCmp(WKey(st.a, st.by), WKey(st.b, st.by)) = <<B01(o = 0), B01(o # 0), o, B01(o = 0), 1>>
Lengths == WLen(st.a) = Len(a) /\ WLen(st.b) = Len(b)
Normal == \A r \in {st.a, st.b} : \A i \in DOMAIN r : r[i][2] > 0 /\ (i > 1 => r[i - 1][1] + r[i - 1][2] # r[i][1])
=============================================================================
