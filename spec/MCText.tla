-------------------------------- MODULE MCText --------------------------------
(* An implementation of String that knows only bytes: positions are bytes, boundaries *)
(* are found by looking at one byte, characters are moved as the bytes they occupy.   *)
(* TLC runs every operation of a bounded set in every reachable state, over an        *)
(* alphabet with a character of every encoded length, and checks that the contract of *)
(* LkText, which speaks about texts only, accepts every step. Every transition is     *)
(* emitted as the history that performs it.                                           *)
EXTENDS LkText

CONSTANTS MaxLen, MaxLen1, Alpha, Emit

VARIABLES st, im, blk, hist, last
vars == <<st, im, blk, hist, last>>

O(op) == [op |-> op, a |-> 0, b |-> 0, n |-> 0, m |-> 0, c |-> 0, pk |-> 0, s |-> "", t |-> <<>>, u |-> <<>>, x |-> <<>>]

RECURSIVE Nums(_)
Nums(s) == IF s = <<>> THEN "-" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "," \o Nums(Tail(s))
RECURSIVE Xs(_)
Xs(x) == IF Len(x) = 1 THEN Nums(x[1]) ELSE Nums(x[1]) \o "/" \o Xs(Tail(x))
F(k, v) == IF v = 0 THEN "" ELSE " " \o k \o "=" \o ToString(v)
Line(o) == o.op \o " a=" \o ToString(o.a) \o F("b", o.b) \o F("n", o.n) \o F("m", o.m) \o F("c", o.c)
           \o (IF o.s = "" THEN "" ELSE " s=" \o o.s)
           \o (IF o.t = <<>> THEN "" ELSE " t=" \o Nums(o.t))
           \o (IF o.x = <<>> THEN "" ELSE " x=" \o Xs(o.x))

(* ---- bytes *)
Cont(b) == b \in 128..191
Bound(y, n) == n = 0 \/ n = Len(y) \/ (n < Len(y) /\ ~Cont(y[n + 1]))
RECURSIVE NextB(_, _)
NextB(y, n) == IF Bound(y, n + 1) THEN n + 1 ELSE NextB(y, n + 1)     \* end of the character at n
RECURSIVE PrevB(_, _)
PrevB(y, n) == IF Bound(y, n - 1) THEN n - 1 ELSE PrevB(y, n - 1)
Bits(y) ==   \* the character these bytes are: its payload bits
  CASE Len(y) = 1 -> y[1]
    [] Len(y) = 2 -> (y[1] - 192) * 64 + (y[2] - 128)
    [] Len(y) = 3 -> (y[1] - 224) * 4096 + (y[2] - 128) * 64 + (y[3] - 128)
    [] OTHER -> (y[1] - 240) * 262144 + (y[2] - 128) * 4096 + (y[3] - 128) * 64 + (y[4] - 128)
RECURSIVE Chars(_)
Chars(y) == IF y = <<>> THEN <<>> ELSE LET n == NextB(y, 0) IN <<Bits(Front(y, n))>> \o Chars(Tail1(y, n))
RECURSIVE RetainB(_, _)
RetainB(y, m) == IF y = <<>> THEN <<>>
  ELSE LET n == NextB(y, 0) c == Bits(Front(y, n)) IN
       (IF Bit(m, c % 16) = 1 THEN Front(y, n) ELSE <<>>) \o RetainB(Tail1(y, n), m)
UpB(y, lo, hi) == [i \in DOMAIN y |-> IF i > lo /\ i <= hi /\ y[i] \in 97..122 THEN y[i] - 32 ELSE y[i]]

(* ---- the implementation: im[i] = <<bytes, capacity, block>> or <<>>.                *)
(* Result: [res, y: new bytes of slot a or Ill, z: bytes of a new slot b or Ill, txt]  *)
V(res, y, z, txt) == [res |-> res, y |-> y, z |-> z, txt |-> txt]
Do8(o) ==
  LET here == im[o.a] # <<>> y == IF here THEN im[o.a][1] ELSE Ill
      n == o.n L == Len(y) bad == V("panic", y, Ill, <<>>)
      enc == IF OfTexts(o.s) THEN Enc(Cat(o.x)) ELSE Enc(o.t)
  IN
  CASE o.op = "ctor" -> V("ok", <<>>, Ill, <<>>)
    [] o.op = "lit" -> V("ok", IF o.s = "char" THEN Enc1(o.c) ELSE IF o.s = "copy" THEN im[o.b][1] ELSE enc, Ill, <<>>)
    [] o.op = "push" -> V("ok", y \o Enc1(o.c), Ill, <<>>)
    [] o.op \in {"pushs", "ext"} -> V("ok", y \o enc, Ill, <<>>)
    [] o.op = "pop" -> IF L = 0 THEN V("none", y, Ill, <<>>)
                       ELSE LET p == PrevB(y, L) IN V("ok", Front(y, p), Ill, <<Bits(Tail1(y, p))>>)
    [] o.op = "clear" -> V("ok", <<>>, Ill, <<>>)
    [] o.op = "remove" -> IF ~Bound(y, n) \/ n = L THEN bad
                          ELSE LET e == NextB(y, n) IN
                               V("ok", Front(y, n) \o Tail1(y, e), Ill, <<Bits(SubSeq(y, n + 1, e))>>)
    [] o.op = "ins" -> IF ~Bound(y, n) THEN bad ELSE V("ok", Front(y, n) \o Enc1(o.c) \o Tail1(y, n), Ill, <<>>)
    [] o.op = "inss" -> IF ~Bound(y, n) THEN bad ELSE V("ok", Front(y, n) \o enc \o Tail1(y, n), Ill, <<>>)
    [] o.op = "trunc" -> IF n >= L THEN V("ok", y, Ill, <<>>) ELSE IF ~Bound(y, n) THEN bad
                         ELSE V("ok", Front(y, n), Ill, <<>>)
    [] o.op = "splitoff" -> IF ~Bound(y, n) THEN bad ELSE V("ok", Front(y, n), Tail1(y, n), <<>>)
    [] o.op = "retain" -> V("ok", RetainB(y, o.m), Ill, Chars(y))
    [] o.op = "clone" -> V("ok", y, y, <<>>)
    [] o.op \in {"idx", "idxm"} ->
         LET lo == IF o.s \in {"r", "ri", "rf"} THEN n ELSE 0
             hi == CASE o.s \in {"r", "rt"} -> o.m [] o.s \in {"ri", "rti"} -> o.m + 1 [] OTHER -> L IN
         IF lo > hi \/ ~Bound(y, lo) \/ ~Bound(y, hi) THEN bad
         ELSE IF o.op = "idx" THEN V("ok", y, Ill, Chars(SubSeq(y, lo + 1, hi)))
         ELSE V("ok", UpB(y, lo, hi), Ill, <<>>)
    [] o.op = "drop" -> V("ok", Ill, Ill, <<>>)
    [] OTHER -> V("ok", y, Ill, <<>>)

Room(o, L) == CASE o.op \in TReserving -> L + o.n [] o.op = "ctor" -> o.n [] OTHER -> L

(* The event of executing o, and the implementation afterwards *)
Exec(o) ==
  LET r == Do8(o)
      was == im[o.a]
      here == was # <<>>
      cap0 == IF here THEN was[2] ELSE 0
      need == IF r.y = Ill THEN 0 ELSE IF r.res \in {"panic", "none"} THEN cap0
              ELSE MaxOf(Len(r.y), IF here THEN Room(o, Len(was[1])) ELSE Room(o, Len(r.y)))
      cap1 == IF o.op = "shrinkf" THEN Len(r.y) ELSE MaxOf(cap0, need)
      blk1 == IF cap1 = 0 \/ r.y = Ill THEN 0 ELSE IF cap1 = cap0 THEN was[3] ELSE blk + 1
      req(k, id, sz, id2, sz2) == [k |-> k, a |-> 1, b |-> id, s |-> sz, al |-> 1, m |-> 0, t |-> 0, b2 |-> id2, s2 |-> sz2]
      rqa == IF r.y = Ill THEN (IF cap0 > 0 THEN <<req("d", was[3], cap0, 0, 0)>> ELSE <<>>)
             ELSE IF cap1 = cap0 THEN <<>>
             ELSE IF cap0 = 0 THEN <<req("a", blk1, cap1, 0, 0)>>
             ELSE IF cap1 = 0 THEN <<req("d", was[3], cap0, 0, 0)>>
             ELSE <<req("r", was[3], cap0, blk1, cap1)>>
      two == r.z # Ill
      rqb == IF two /\ r.z # <<>> THEN <<req("a", blk + 2, Len(r.z), 0, 0)>> ELSE <<>>
      im1 == [i \in {0, 1} |->
                IF two /\ i = o.b THEN <<r.z, Len(r.z), IF r.z = <<>> THEN 0 ELSE blk + 2>>
                ELSE IF i # o.a THEN im[i]
                ELSE IF r.y = Ill THEN <<>> ELSE <<r.y, cap1, blk1>>]
      slot(i) == IF im1[i] = <<>> THEN <<>> ELSE <<[i |-> i, by |-> im1[i][1], cap |-> im1[i][2], bl |-> im1[i][3]]>>
      cmp == LET c == Lex(im[o.a][1], im[o.b][1]) IN
             <<B01(c = 0), B01(c # 0), c, c, B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0), B01(c = 0), 1, 1>>
  IN [im |-> im1,
      ev |-> o @@ [res |-> r.res, inj |-> 0, af |-> 0, why |-> 0, txt |-> r.txt, num |-> IF o.op = "cmp" THEN cmp ELSE <<>>,
                   an |-> <<>>, dr |-> <<>>, cr |-> <<>>, lg |-> <<>>, zd |-> 0, zc |-> 0, rq |-> rqa \o rqb,
                   sl |-> slot(0) \o slot(1)]]

(* ---- operations *)
Texts(n) == UNION {[1..k -> Alpha] : k \in 0..n}
Make == {O("ctor"), [O("ctor") EXCEPT !.s = "cap", !.n = 3]}
        \cup {[O("lit") EXCEPT !.s = s, !.t = t] : s \in {"from", "iterc"}, t \in Texts(1)}
        \cup {[O("lit") EXCEPT !.s = "char", !.c = c] : c \in Alpha}
        \cup {[O("lit") EXCEPT !.s = s, !.x = <<t, v>>] : s \in {"iters", "iterS"}, t \in Texts(1), v \in Texts(1)}
Ctor(o) == IF o.op = "ctor" /\ o.s = "" THEN [o EXCEPT !.s = "new"] ELSE o
Change(L, k) ==
  {O("pop"), O("clear"), O("shrinkf"), O("drop"), [O("reserve") EXCEPT !.n = 1], [O("treserve") EXCEPT !.n = 5]}
  \cup {[O("push") EXCEPT !.c = c] : c \in Alpha}
  \cup {[O("pushs") EXCEPT !.t = t] : t \in Texts(1)}
  \cup {[O(op) EXCEPT !.n = n] : op \in {"remove", "trunc"}, n \in 0..(L + 1)}
  \cup {[O("ins") EXCEPT !.n = n, !.c = c] : n \in 0..(L + 1), c \in Alpha}
  \cup {[O("inss") EXCEPT !.n = n, !.t = t] : n \in 0..(L + 1), t \in Texts(1)}
  \cup {[O("retain") EXCEPT !.m = m] : m \in {0, 2, 512, 4096, 64, 32768, 4098, 4608, 65535}}
  \cup {[O("ext") EXCEPT !.s = s, !.t = t] : s \in {"c", "rc"}, t \in Texts(1)}
  \cup {[O("ext") EXCEPT !.s = s, !.x = <<t, v>>] : s \in {"s", "S"}, t \in Texts(1), v \in Texts(1)}
  \cup {[O(op) EXCEPT !.s = "r", !.n = n, !.m = m] : op \in {"idx", "idxm"}, n \in 0..(L + 1), m \in 0..(L + 1)}
  \cup {[O(op) EXCEPT !.s = s, !.n = n, !.m = n] : op \in {"idx", "idxm"}, s \in {"ri", "rf", "rt", "rti", "f"}, n \in 0..(L + 1)}
  \cup (IF k THEN {} ELSE {[O("splitoff") EXCEPT !.n = n, !.b = 1] : n \in 0..(L + 1)} \cup {[O("clone") EXCEPT !.b = 1]})
Ops ==
  (IF im[0] = <<>> THEN Make \cup (IF im[1] = <<>> THEN {} ELSE {[O("lit") EXCEPT !.s = "copy", !.b = 1]})
   ELSE Change(Len(im[0][1]), im[1] # <<>>))
  \cup (IF im[1] = <<>> THEN {} ELSE {[O("drop") EXCEPT !.a = 1]})
  \cup (IF im[0] # <<>> /\ im[1] # <<>> THEN {[O("cmp") EXCEPT !.b = 1], [O("cmp") EXCEPT !.a = 1]} ELSE {})

Init == st = TStart /\ im = [i \in {0, 1} |-> <<>>] /\ blk = 0 /\ hist = "" /\ last = {}

H == [hd |-> "text"]
Do(o) ==
  LET x == TLCEval(Exec(o))
      j == TLCEval(TJudge(H, x.ev, st))
      hi == hist \o ";" \o Line(o) IN
  /\ st' = j.st /\ im' = x.im /\ last' = j.bad
  /\ blk' = blk + 2
  /\ hist' = hi
  /\ Emit => PrintT("SC|" \o hi)

Next == \E o \in Ops : Do(Ctor(o))
Spec == Init /\ [][Next]_vars

LenOf(i) == IF im[i] = <<>> THEN 0 ELSE Cardinality({n \in 1..Len(im[i][1]) : ~Cont(im[i][1][n])})
Small == /\ LenOf(0) <= MaxLen /\ LenOf(1) <= MaxLen1
         \* upper-case results are looked at once and not continued from
         /\ \A i \in {0, 1} : im[i] = <<>> \/ Range(Chars(im[i][1])) \subseteq Alpha
Sig(i) == IF im[i] = <<>> THEN <<>> ELSE <<im[i][1], im[i][2] > Len(im[i][1])>>
View == <<Sig(0), Sig(1), last>>

Accepted == last = {}
Utf8 == \A i \in {0, 1} : im[i] # <<>> => Dec8(im[i][1]) = Chars(im[i][1]) /\ Enc(Chars(im[i][1])) = im[i][1]
Boundaries == \A i \in {0, 1} : im[i] # <<>> =>
  \A n \in 0..(Len(im[i][1]) + 2) : Bound(im[i][1], n) <=> (Pos(Chars(im[i][1]), n) # -1)
Memory == DOMAIN st.led = {im[i][3] : i \in {j \in {0, 1} : im[j] # <<>>}} \ {0}
=============================================================================
