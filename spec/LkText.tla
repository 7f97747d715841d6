-------------------------------- MODULE LkText --------------------------------
(* The contract of String: a String is a text, a sequence of characters (Unicode      *)
(* scalar values); its bytes are the UTF-8 encoding of that text. What UTF-8 and      *)
(* UTF-16 are is defined here, from the encodings, independently of how anyone        *)
(* decodes them.                                                                      *)
EXTENDS LkBase

TSLOTS == 0..3

(* ------------------------------------------------------------------ Unicode        *)
Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111

(* The one UTF-8 encoding of a scalar value *)
Enc1(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Enc(_)
Enc(tx) == IF tx = <<>> THEN <<>> ELSE Enc1(Head(tx)) \o Enc(Tail(tx))

Len8(c) == Len(Enc1(c))
RECURSIVE Bytes(_)
Bytes(tx) == IF tx = <<>> THEN 0 ELSE Len8(Head(tx)) + Bytes(Tail(tx))

(* The scalar value whose encoding starts u, or -1. The lead byte says how many bytes *)
(* the encoding has; the value they would encode must encode to exactly these bytes.  *)
First8(u) ==
  LET b == u[1]
      n == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3
           ELSE IF b \in 240..247 THEN 4 ELSE 0
      x(i) == u[i] % 64
      c == CASE n = 1 -> b
             [] n = 2 -> (b % 32) * 64 + x(2)
             [] n = 3 -> (b % 16) * 4096 + x(2) * 64 + x(3)
             [] OTHER -> (b % 8) * 262144 + x(2) * 4096 + x(3) * 64 + x(4)
  IN IF n = 0 \/ n > Len(u) THEN -1
     ELSE IF Scalar(c) /\ Enc1(c) = Sub(u, 1, n) THEN c ELSE -1

Ill == <<-1>>
RECURSIVE Dec8(_)
Dec8(u) ==   \* the text u encodes, or Ill
  IF u = <<>> THEN <<>>
  ELSE LET c == First8(u) IN
       IF c = -1 THEN Ill
       ELSE LET r == Dec8(Tail1(u, Len8(c))) IN IF r = Ill THEN Ill ELSE <<c>> \o r

(* Where decoding stops: how many bytes are well formed, and how many after them       *)
(* cannot begin any character (0: the end came too early).                             *)
RECURSIVE Good8(_, _)
Good8(u, k) == IF u = <<>> THEN k
  ELSE LET c == First8(u) IN IF c = -1 THEN k ELSE Good8(Tail1(u, Len8(c)), k + Len8(c))
Wrong8(r) ==
  LET b == r[1]
      n == IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 1
      lo == CASE b = 224 -> 160 [] b = 240 -> 144 [] OTHER -> 128
      hi == CASE b = 237 -> 159 [] b = 244 -> 143 [] OTHER -> 191
      fits(i) == IF i = 2 THEN r[2] \in lo..hi ELSE r[i] \in 128..191
      last == CHOOSE i \in 1..n : (\A j \in 2..i : j <= Len(r) /\ fits(j)) /\ (i = n \/ i = Len(r) \/ ~fits(i + 1))
  IN IF n > 1 /\ last = Len(r) /\ last < n THEN 0 ELSE last
Err8(u) == LET k == Good8(u, 0) IN <<k, Wrong8(Tail1(u, k))>>

(* UTF-16: a scalar below 65536 is its own unit; others are a high and a low surrogate *)
RECURSIVE Dec16(_)
Dec16(u) ==
  IF u = <<>> THEN <<>>
  ELSE LET a == u[1]
           pair == Len(u) >= 2 /\ a \in 55296..56319 /\ u[2] \in 56320..57343
       IN IF pair THEN
            LET r == Dec16(Tail1(u, 2)) IN
            IF r = Ill THEN Ill ELSE <<65536 + (a - 55296) * 1024 + (u[2] - 56320)>> \o r
          ELSE IF a \in 55296..57343 THEN Ill
          ELSE LET r == Dec16(Tail(u)) IN IF r = Ill THEN Ill ELSE <<a>> \o r

(* The number of characters before byte position n, or -1 when n is no boundary. *)
RECURSIVE CharsBefore(_, _, _)
CharsBefore(tx, n, k) ==
  IF n = 0 THEN k
  ELSE IF n < 0 \/ n >= HUGE \/ tx = <<>> THEN -1
  ELSE CharsBefore(Tail(tx), n - Len8(Head(tx)), k + 1)
Pos(tx, n) == CharsBefore(tx, n, 0)

RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Cat(Tail(x))
Keep(tx, m) == SelectSeq(tx, LAMBDA c : Bit(m, c % 16) = 1)
Upper(tx) == [i \in DOMAIN tx |-> IF tx[i] \in 97..122 THEN tx[i] - 32 ELSE tx[i]]

RECURSIVE SubText(_, _)
SubText(x, y) ==   \* x is y with characters left out
  IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
  ELSE IF Head(x) = Head(y) THEN SubText(Tail(x), Tail(y)) ELSE SubText(x, Tail(y))

(* ------------------------------------------------------------------ state          *)
(* A slot: [k: 1 if there is a String, tx: its text, by: its bytes, cap, bl: block,   *)
(* m: marker it was given (-1 not known), sc: scope it was made in].                  *)
NoT == [k |-> 0, tx |-> <<>>, by |-> <<>>, cap |-> 0, bl |-> 0, m |-> 0, sc |-> 0]
TStart == [sl |-> [i \in TSLOTS |-> NoT], led |-> <<>>, sc |-> <<0>>, dead |-> FALSE]

Iter(s) == s \in {"iterc", "iterc0", "iterrc", "iterrc0", "iters", "iters0", "iterS", "iterS0"}
OfTexts(s) == s \in {"iters", "iters0", "iterS", "iterS0", "s", "s0", "S", "S0"}
OfStrings(s) == s \in {"iterS", "iterS0", "S", "S0"}

TMaking == {"ctor", "lit", "utf8", "utf8u", "utf16"}
TReserving == {"reserve", "reservex", "treserve", "treservex"}
TFallible(e) == e.op \in {"treserve", "treservex"} \/ (e.op = "ctor" /\ e.s \in {"tcap", "tcapm"})
TGrowing == {"push", "pushs", "ins", "inss", "ext"} \cup TReserving
TKeeping == {"pop", "clear", "remove", "trunc", "splitoff", "retain", "clone", "idx", "idxm", "cmp"}
Marked(e) == (e.op = "ctor" /\ e.s \in {"mark", "capm", "tcapm"}) \/ e.op = "utf8"
Sized(e) == e.op \in TReserving \/ (e.op = "ctor" /\ e.s \in {"cap", "capm", "tcap", "tcapm"})

(* ------------------------------------------------------------------ meaning        *)
(* [res, a: text in slot a or Ill for none, b: likewise, txt: characters returned]    *)
TR(res, a, b, txt) == [res |-> res, a |-> a, b |-> b, txt |-> txt]

(* The byte range of an index operation, as <<first character, last character>>: the  *)
(* characters after `first` up to `last`; <<-1, -1>> when it must be refused.          *)
CharRange(e, tx) ==
  LET L == Len(tx)
      lo == IF e.s \in {"r", "ri", "rf"} THEN Pos(tx, e.n) ELSE 0
      hi == CASE e.s \in {"r", "rt"} -> Pos(tx, e.m)
              [] e.s \in {"ri", "rti"} -> IF e.m >= HUGE THEN -1 ELSE Pos(tx, e.m + 1)
              [] OTHER -> L
  IN IF lo = -1 \/ hi = -1 \/ lo > hi THEN <<-1, -1>> ELSE <<lo, hi>>

TSem(e, S) ==
  LET A == S[e.a] B == S[e.b]
      tx == A.tx L == Len(tx)
      ra == IF A.k = 1 THEN tx ELSE Ill
      rb == IF B.k = 1 THEN B.tx ELSE Ill
      skip == TR("skip", ra, rb, <<>>)
      refuse == TR("panic", ra, rb, <<>>)
      ok(x) == TR("ok", x, rb, <<>>)
      make(x) == IF A.k = 1 THEN skip ELSE IF x = Ill THEN TR("err", Ill, rb, <<>>) ELSE ok(x)
      p == Pos(tx, e.n)
  IN
  CASE e.op = "ctor" -> make(<<>>)
    [] e.op = "lit" ->
         IF e.s = "copy" THEN IF B.k = 0 THEN skip ELSE make(B.tx)
         ELSE make(IF e.s = "char" THEN <<e.c>> ELSE IF OfTexts(e.s) THEN Cat(e.x) ELSE e.t)
    [] e.op = "utf8" -> LET r == Dec8(e.u) IN
                        IF A.k = 0 /\ r = Ill THEN TR("err", Ill, rb, Err8(e.u)) ELSE make(r)
    [] e.op = "utf16" -> make(Dec16(e.u))
    [] e.op = "utf8u" -> make(e.t)
    [] A.k = 0 /\ ~(e.op \in {"enter", "leave", "end"}) -> skip
    [] e.op = "push" -> ok(Append(tx, e.c))
    [] e.op = "pop" -> IF L = 0 THEN TR("none", ra, rb, <<>>) ELSE TR("ok", Front(tx, L - 1), rb, <<tx[L]>>)
    [] e.op = "pushs" -> ok(tx \o e.t)
    [] e.op = "ext" -> ok(tx \o (IF OfTexts(e.s) THEN Cat(e.x) ELSE e.t))
    [] e.op = "clear" -> ok(<<>>)
    [] e.op = "remove" -> IF p = -1 \/ p = L THEN refuse ELSE TR("ok", Remove(tx, p + 1), rb, <<tx[p + 1]>>)
    [] e.op = "ins" -> IF p = -1 THEN refuse ELSE ok(InsertAt(tx, p + 1, e.c))
    [] e.op = "inss" -> IF p = -1 THEN refuse ELSE ok(Front(tx, p) \o e.t \o Tail1(tx, p))
    [] e.op = "trunc" -> IF e.n >= Bytes(tx) THEN ok(tx) ELSE IF p = -1 THEN refuse ELSE ok(Front(tx, p))
    [] e.op = "splitoff" ->
         IF B.k = 1 THEN skip ELSE IF p = -1 THEN refuse ELSE TR("ok", Front(tx, p), Tail1(tx, p), <<>>)
    [] e.op = "retain" -> TR("ok", Keep(tx, e.m), rb, tx)
    [] e.op = "clone" -> IF B.k = 1 THEN skip ELSE TR("ok", tx, tx, <<>>)
    [] e.op = "idx" -> LET r == CharRange(e, tx) IN
                       IF r[1] = -1 THEN refuse ELSE TR("ok", tx, rb, Sub(tx, r[1] + 1, r[2]))
    [] e.op = "idxm" -> LET r == CharRange(e, tx) IN
                        IF r[1] = -1 THEN refuse
                        ELSE ok(Front(tx, r[1]) \o Upper(Sub(tx, r[1] + 1, r[2])) \o Tail1(tx, r[2]))
    [] e.op = "cmp" -> IF B.k = 0 THEN skip ELSE TR("ok", tx, rb, <<>>)
    [] e.op = "drop" -> TR("ok", Ill, rb, <<>>)
    [] OTHER -> TR("ok", ra, rb, <<>>)

(* ------------------------------------------------------------------ one step       *)
(* Bytes the String in slot a must have room for *)
TAsked(e, S) ==
  LET A == S[e.a] n == Len(A.by) IN
  CASE e.op \in TReserving -> n + e.n
    [] e.op = "ctor" -> IF Sized(e) THEN e.n ELSE 0
    [] e.op \in {"push", "ins"} -> n + Len8(e.c)
    [] e.op \in {"pushs", "inss"} -> n + Bytes(e.t)
    [] e.op = "ext" -> n + Bytes(IF OfTexts(e.s) THEN Cat(e.x) ELSE e.t)
    [] OTHER -> n

TPost(e, S) ==
  LET here(i) == \E c \in Range(e.sl) : c.i = i
      obs(i) == CHOOSE c \in Range(e.sl) : c.i = i
  IN TLCEval([i \in TSLOTS |->
       IF ~here(i) THEN NoT
       ELSE LET c == obs(i) IN
            [k |-> 1, tx |-> IF S[i].k = 1 /\ S[i].by = c.by THEN S[i].tx ELSE Dec8(c.by),
             by |-> c.by, cap |-> c.cap, bl |-> c.bl, m |-> S[i].m, sc |-> S[i].sc]])

TextBad(e, S, P) ==
  LET m == TSem(e, S)
      seen(i) == IF P[i].k = 1 THEN P[i].tx ELSE Ill
      was(i) == IF S[i].k = 1 THEN S[i].tx ELSE Ill
      others == \A i \in TSLOTS \ {e.a, e.b} : seen(i) = was(i)
      same == \A i \in TSLOTS : seen(i) = was(i)
      rest == \A i \in TSLOTS \ {e.a} : seen(i) = was(i)
      \* what was there and the beginning of what was to be added
      part == /\ rest /\ P[e.a].k = 1
              /\ LET x == P[e.a].tx IN Len(x) >= Len(S[e.a].tx) /\ Len(x) <= Len(m.a) /\ x = Front(m.a, Len(x))
      adding == e.op = "ext" \/ (e.op = "pushs" /\ e.s = "wf")
      refused == e.af > 0 /\ e.res \in {"err", "panic"}
      huge == Sized(e) /\ e.n >= HUGE
  IN
  IF e.res = "crash" THEN {"crash"}
  ELSE
  (IF \E i \in TSLOTS : P[i].k = 1 /\ P[i].tx = Ill THEN {"utf8"} ELSE {})
  \cup
  (IF m.res = "skip" \/ e.res = "skip" THEN (IF same THEN {} ELSE {"text"}) \cup (IF m.res = e.res THEN {} ELSE {"res"})
   ELSE IF e.inj = 1 THEN
     (IF e.res = "panic" THEN {} ELSE {"res"})
     \cup (IF e.op = "retain" THEN IF rest /\ P[e.a].k = 1 /\ SubText(P[e.a].tx, S[e.a].tx) THEN {} ELSE {"text"}
           ELSE IF e.op = "ext" THEN IF part THEN {} ELSE {"text"}
           ELSE IF same THEN {} ELSE {"text"})
   ELSE IF refused THEN
     ReasonBad(e) \cup (IF TFallible(e) = (e.res = "err") THEN {} ELSE {"res"})
     \cup (IF adding THEN IF part THEN {} ELSE {"text"}
           ELSE IF e.op = "pushs" /\ e.s = "add" THEN IF rest /\ P[e.a].k = 0 THEN {} ELSE {"text"}
           ELSE IF same THEN {} ELSE {"text"})
   ELSE IF huge THEN
     ReasonBad(e) \cup (IF m.res = "skip" \/ e.res = (IF TFallible(e) THEN "err" ELSE "panic") \/ (TFallible(e) /\ e.res = "panic")
      THEN {} ELSE {"huge"})
     \cup (IF same THEN {} ELSE {"text"})
   ELSE
     (IF e.res = m.res THEN {} ELSE {"res"})
     \cup (IF others /\ seen(e.a) = m.a /\ (e.a = e.b \/ seen(e.b) = m.b) THEN {} ELSE {"text"})
     \cup (IF e.txt = m.txt THEN {} ELSE {"ret"})
     \cup (IF e.op = "cmp" /\ ~(Len(e.num) = 11 /\ CmpOk(e.num, Lex(S[e.a].tx, S[e.b].tx))) THEN {"cmp"} ELSE {}))

TCapBad(e, S, P) ==
  LET A == S[e.a] PA == P[e.a]
      same == PA.cap = A.cap /\ PA.bl = A.bl
      silent == Reqs(e, {"a", "r", "f", "g", "d"}) = {}
      asked == TAsked(e, S)
      both == A.k = 1 /\ PA.k = 1
  IN
  IF e.res \in {"crash", "skip"} THEN {}
  ELSE
  (IF \E i \in TSLOTS : P[i].k = 1 /\ P[i].cap < Len(P[i].by) THEN {"cap_lt_len"} ELSE {})
  \cup (IF Sized(e) /\ e.res = "ok" /\ e.n < HUGE /\ PA.k = 1 /\ PA.cap < asked THEN {"cap_short"} ELSE {})
  \cup (IF ~both THEN {}
        ELSE
        (IF e.op \in TKeeping /\ ~same THEN {"cap_removed"} ELSE {})
        \cup (IF e.op \in TKeeping \ {"splitoff", "clone"} /\ ~silent THEN {"cap_removed"} ELSE {})
        \cup (IF e.op \in TGrowing /\ e.n < HUGE /\ asked <= A.cap /\ ~OfStrings(e.s) /\ ~(same /\ silent)
              THEN {"cap_realloc"} ELSE {})
        \cup (IF e.op \in {"shrink", "shrinkf"} /\ e.res = "ok" THEN
                LET want == MaxOf(Len(A.by), IF e.op = "shrink" THEN e.n ELSE 0) IN
                IF A.cap > want THEN (IF PA.cap = want THEN {} ELSE {"cap_shrink"})
                ELSE IF same /\ silent THEN {} ELSE {"cap_shrink"}
              ELSE {})
        \cup (IF e.af > 0 /\ e.res \in {"err", "panic"} /\ e.inj = 0 /\ ~(e.op = "ext" \/ (e.op = "pushs" /\ e.s = "wf"))
                 /\ ~same THEN {"oom_cap"} ELSE {})
        \cup (IF Sized(e) /\ e.n >= HUGE /\ ~same THEN {"cap_huge"} ELSE {}))

TOwned(P) == {P[i].bl : i \in {j \in TSLOTS : P[j].bl > 0}}

(* A buffer may also grow by a new block from the allocator its last one came from. *)
TRouteBad(e, S, P, stack, led) ==
  LET A == S[e.a]
      given == IF A.k = 0 THEN (IF Marked(e) THEN {e.m} ELSE {0})
               ELSE IF e.op \in {"clone", "splitoff"} \/ A.m = -1 THEN {0, 1, 2}
               ELSE {A.m} \cup (IF OfStrings(e.s) THEN {0} ELSE {})
      scs == {stack[Len(stack)]} \cup (IF A.k = 1 THEN {A.sc} ELSE {})
  IN
  IF \E i \in Reqs(e, {"a", "f"}) :
       LET r == e.rq[i] mk == (r.a - 1) % 3 sc == (r.a - 1) \div 3 IN
       ~(\/ /\ mk \in given /\ sc \in scs /\ (r.m = -2 \/ r.m \in given) /\ (r.t = -2 \/ r.t = 0)
         \/ /\ A.k = 1 /\ P[e.a].k = 1 /\ A.bl \in DOMAIN led /\ led[A.bl].a = r.a
            /\ ~(e.op \in {"clone", "splitoff"}))
  THEN {"route"} ELSE {}

TMoveBad(e, S, P, led0, led1) ==
  LET A == S[e.a] PA == P[e.a] IN
  IF A.k = 1 /\ PA.k = 1 /\ A.bl > 0 /\ PA.bl > 0 /\ A.bl \in DOMAIN led0 /\ PA.bl \in DOMAIN led1
     /\ led0[A.bl].a # led1[PA.bl].a
  THEN {"moved_allocator"} ELSE {}

(* Markers and scopes the model remembers. The marker of a block tells that of its owner. *)
TGhost(e, S, P, led, stack) ==
  LET cur == stack[Len(stack)]
      told(i) == IF P[i].bl \in DOMAIN led THEN (led[P[i].bl].a - 1) % 3 ELSE -1
  IN TLCEval([i \in TSLOTS |->
       IF P[i].k = 0 THEN NoT
       ELSE IF S[i].k = 1 THEN
         \* a String without a buffer may take over the first one it is extended with
         [P[i] EXCEPT !.m = IF i = e.a /\ e.op = "ext" /\ OfStrings(e.s) /\ S[i].cap = 0 THEN told(i)
                            ELSE IF S[i].m = -1 THEN told(i) ELSE S[i].m]
       ELSE IF i = e.a /\ e.op \in TMaking
       THEN [P[i] EXCEPT !.m = IF Marked(e) THEN e.m ELSE 0, !.sc = cur]
       ELSE [P[i] EXCEPT !.m = told(i), !.sc = cur]])

TJudge(h, e, st) ==
  LET S == st.sl
      lb == TLCEval(Ledger(st.led, e.rq, {}))
      led == lb[1]
      P == TGhost(e, S, TPost(e, S), led, st.sc)
      bad == Range(e.an) \cup lb[2]
             \cup (IF e.op = "end" /\ e.res # "crash" THEN
                     (IF e.res = "ok" /\ \A i \in TSLOTS : P[i].k = 0 THEN {} ELSE {"res"})
                   ELSE IF e.op = "end" THEN {"crash"}
                   ELSE TextBad(e, S, P) \cup TCapBad(e, S, P) \cup TRouteBad(e, S, P, st.sc, st.led)
                        \cup TMoveBad(e, S, P, st.led, led))
             \cup (IF e.res = "crash" \/ DOMAIN led \subseteq TOwned(P) THEN {} ELSE {"block_kept"})
             \cup (IF e.res = "crash" \/ TOwned(P) \subseteq DOMAIN led THEN {} ELSE {"block_gone"})
  IN IF st.dead THEN [bad |-> {}, st |-> st]
     ELSE [bad |-> bad,
           st |-> TLCEval([sl |-> P, led |-> led, dead |-> bad # {},
                   sc |-> CASE e.op = "enter" -> Append(st.sc, e.num[1])
                            [] e.op = "leave" /\ e.res # "skip" -> Front(st.sc, Len(st.sc) - 1)
                            [] OTHER -> st.sc])]
=============================================================================
