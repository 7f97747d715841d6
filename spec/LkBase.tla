-------------------------------- MODULE LkBase --------------------------------
(* What all trace specifications share: sequences, the ledger of live blocks, the   *)
(* requests of a step.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HUGE == 2000000000
INF == 1073741824

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
(* The part of s from i to j, as far as it exists: what is judged may be wrong. *)
Sub(s, i, j) == SubSeq(s, MaxOf(i, 1), MinOf(j, Len(s)))
Range(s) == {s[i] : i \in DOMAIN s}
Front(s, n) == Sub(s, 1, n)
Tail1(s, n) == Sub(s, n + 1, Len(s))      \* all after the first n
Remove(s, i) == Sub(s, 1, i - 1) \o Sub(s, i + 1, Len(s))
InsertAt(s, i, x) == Sub(s, 1, i - 1) \o <<x>> \o Sub(s, i, Len(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RECURSIVE Lex(_, _)
Lex(x, y) == IF x = <<>> THEN (IF y = <<>> THEN 0 ELSE -1)
  ELSE IF y = <<>> THEN 1
  ELSE IF Head(x) < Head(y) THEN -1 ELSE IF Head(x) > Head(y) THEN 1
  ELSE Lex(Tail(x), Tail(y))

(* An error says whether no allocator was asked because the size cannot be represented (1), or one refused (2). *)
ReasonBad(e) == IF e.res = "err" /\ e.why > 0 /\ e.why # (IF e.af > 0 THEN 2 ELSE 1) THEN {"reason"} ELSE {}

(* How a list of numbers is printed. *)
RECURSIVE Commas(_)
Commas(v) == IF v = <<>> THEN "" ELSE IF Len(v) = 1 THEN ToString(v[1]) ELSE ToString(v[1]) \o ", " \o Commas(Tail(v))
Printed(v) == "[" \o Commas(v) \o "]"

Bit(m, i) == (m \div (2 ^ i)) % 2

Created(e) == {c[1] : c \in Range(e.cr)}
Reqs(e, ks) == {i \in DOMAIN e.rq : e.rq[i].k \in ks}

(* --- blocks: led[id] = [a: allocator, s: size, al: alignment] *)
RECURSIVE Ledger(_, _, _)
Ledger(led, rq, bad) ==   \* <<ledger after, aspects>>
  IF rq = <<>> THEN <<led, bad>>
  ELSE LET r == Head(rq) t == Tail(rq) IN
    CASE r.k = "a" ->
           Ledger(led @@ (r.b :> [a |-> r.a, s |-> r.s, al |-> r.al]), t,
                  bad \cup (IF r.s = 0 THEN {"zero_request"} ELSE {}))
      [] r.k = "d" ->
           IF r.b \in DOMAIN led
           THEN Ledger(TLCEval([i \in DOMAIN led \ {r.b} |-> led[i]]), t,
                  bad \cup (IF led[r.b] = [a |-> r.a, s |-> r.s, al |-> r.al] THEN {} ELSE {"bad_release"}))
           ELSE Ledger(led, t, bad \cup {"bad_release"})
      [] r.k = "r" ->
           IF r.b \in DOMAIN led
           THEN Ledger(TLCEval([i \in DOMAIN led \ {r.b} |-> led[i]]) @@ (r.b2 :> [a |-> r.a, s |-> r.s2, al |-> r.al]), t,
                  bad \cup (IF led[r.b] = [a |-> r.a, s |-> r.s, al |-> r.al] THEN {} ELSE {"bad_release"})
                      \cup (IF r.s2 = 0 \/ r.s = 0 THEN {"zero_request"} ELSE {}))
           ELSE Ledger(led @@ (r.b2 :> [a |-> r.a, s |-> r.s2, al |-> r.al]), t, bad \cup {"bad_release"})
      [] OTHER -> Ledger(led, t, bad)

B01(c) == IF c THEN 1 ELSE 0
(* The first observations of a comparison of contents ordered as o = -1, 0, 1. *)
CmpOk(num, o) ==
  /\ Len(num) >= 11
  /\ Sub(num, 1, 8) = <<B01(o = 0), B01(o # 0), o, o, B01(o < 0), B01(o <= 0), B01(o > 0), B01(o >= 0)>>
  /\ (o = 0 => num[9] = 1)
  /\ num[10] = 1 /\ num[11] = 1
(* The same where a quarter of the values equal nothing, not even themselves, and stand in no  *)
(* order to anything: 9 is "no order". The two are compared, then the first with itself.       *)
IsOdd(x) == x % 4 = 1
RECURSIVE PLex(_, _)
PLex(x, y) == IF x = <<>> \/ y = <<>> THEN Lex(x, y)
  ELSE IF IsOdd(Head(x)) \/ IsOdd(Head(y)) THEN 9
  ELSE IF Head(x) < Head(y) THEN -1 ELSE IF Head(x) > Head(y) THEN 1
  ELSE PLex(Tail(x), Tail(y))
PSeen(x, y) == LET o == PLex(x, y) IN
  <<B01(o = 0), B01(o # 0), o, B01(o = -1), B01(o \in {-1, 0}), B01(o = 1), B01(o \in {0, 1})>>
PCmpOk(num, x, y) == Sub(num, 12, Len(num)) = PSeen(x, y) \o PSeen(x, x)
=============================================================================
