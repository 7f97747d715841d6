------------------------------- MODULE MCConc -------------------------------
(* The protocols of Arc and Urc, one atomic operation (or access to the value, or release) *)
(* at a time, run by a few threads that choose their operations as they go. Everything     *)
(* that happens is judged by the very contract that recorded executions of the real code    *)
(* are judged by (LkConc), under every interleaving, including happens-before.              *)
(*                                                                                        *)
(* Invariants: the contract holds; whenever nobody is inside an operation the counters are  *)
(* the numbers of handles they stand for; somebody who is inside one can always go on (no   *)
(* step repeats itself, so that every operation ends).                                      *)
(*                                                                                        *)
(* Weak names steps whose ordering (or whose logic) is deliberately spoiled, to see that    *)
(* the contract notices; it is {} for the real protocol.                                    *)
EXTENDS LkConc

CONSTANTS Fam,        \* "arc" or "urc"
          PerThread,  \* operations of one thread
          Total,      \* operations of all threads
          Shapes,     \* which starting situations: a set of numbers, {} for all
          Weak        \* spoiled steps

LOCK == -1
NH == 9

VARIABLES x,     \* the world: counters, groups, handles, values
          ps,    \* what every thread is doing
          rem,   \* operations each thread may still start
          tot,
          st,    \* state of the contract
          bad    \* what the contract has found
vars == <<x, ps, rem, tot, st, bad>>

Tr(n) == [fam |-> Fam, n |-> n, nh |-> NH]

(* --- the world *)
NoHd == [k |-> "-", b |-> 0, g |-> 0, v |-> 0]
World0(n) == [ct |-> <<>>,          \* block -> counters and value of the object in it
              gp |-> <<>>,          \* group -> counters, object, block
              hd |-> TLCEval([h \in 1..NH |-> NoHd]),
              at |-> TLCEval([h \in 1..NH |-> 0]),   \* thread that has the handle; 10 + t: on its way to t
              nb |-> 0, gen |-> <<>>, loc |-> <<>>, nh |-> 0]
IdleP == [pc |-> "idle", f |-> "", h |-> 0, n |-> 0, b |-> 0, g |-> 0, fg |-> FALSE, c |-> 0, v |-> 0, r |-> "ok", z |-> "", ob |-> 0]

(* --- events *)
E0(op, t) == [op |-> op, t |-> t, f |-> "", h |-> 0, n |-> 0, r |-> "", x |-> 0, v |-> 0, b |-> 0, g |-> 0,
              k |-> "", l |-> 0, a |-> 0, z |-> 0, ok |-> 1, to |-> 0]
Loc(w, b, c) == IF \E i \in DOMAIN w.loc : w.loc[i] = <<b, c>> THEN CHOOSE i \in DOMAIN w.loc : w.loc[i] = <<b, c>>
                ELSE Len(w.loc) + 1
Seen1(w, b, c) == IF Loc(w, b, c) > Len(w.loc) THEN [w EXCEPT !.loc = Append(@, <<b, c>>)] ELSE w
(* ordering o: "x" relaxed, "a" acquire, "r" release *)
At(w, t, k, b, c, o) == [E0("at", t) EXCEPT !.k = k, !.b = b, !.l = Loc(w, b, c),
                           !.a = IF o = "a" THEN 1 ELSE 0, !.z = IF o = "r" THEN 1 ELSE 0]
FenceA(t, name) == IF name \in Weak THEN <<>> ELSE << [E0("fe", t) EXCEPT !.a = 1] >>
Ord(name, o) == IF name \in Weak THEN "x" ELSE o
CallE(t, P) == [E0("call", t) EXCEPT !.f = P.f, !.h = P.h, !.n = P.n]
RetE(t, P, r, v, b, n) == [E0("ret", t) EXCEPT !.f = P.f, !.h = P.h, !.n = P.n, !.r = r, !.v = v, !.b = b, !.x = n]
Val(op, t, w, v, b) == [E0(op, t) EXCEPT !.v = v, !.b = b, !.g = w.gen[v]]
AlE(t, b) == [E0("al", t) EXCEPT !.b = b]
FrE(t, b) == [E0("fr", t) EXCEPT !.b = b]

S(w, P, e) == [x |-> w, p |-> P, e |-> e]
Goto(P, l) == [P EXCEPT !.pc = l]
Done(w, t, P, r, v, b, n, e) == S(w, IdleP, e \o << RetE(t, P, r, v, b, n) >>)
SetH(w, h, k, b, g, t) == [w EXCEPT !.hd[h] = [k |-> k, b |-> b, g |-> g, v |-> 0], !.at[h] = t]
Gone(w, h) == [w EXCEPT !.hd[h] = NoHd, !.at[h] = 0]

(* A new object with value v: one block for Arc, two for Urc. *)
Make(w, t, v, h) ==
  LET b == w.nb + 1
      g == Len(w.gp) + 1
      ct1 == w.ct @@ (b :> [s |-> 1, w |-> 1, v |-> v])
      w1 == [w EXCEPT !.ct = TLCEval(ct1), !.nb = IF Fam = "arc" THEN b ELSE b + 1,
                      !.gp = Append(@, [s |-> 1, w |-> 0, b |-> b, bl |-> b + 1])]
  IN [w |-> SetH(w1, h, "s", b, g, t), b |-> b,
      e |-> IF Fam = "arc" THEN <<AlE(t, b)>> ELSE <<AlE(t, b), AlE(t, b + 1)>>]
NewV(w, g) == [w EXCEPT !.gen = Append(@, g)]

(* What is left to do after a handle has been given up: P.z says what comes then. *)
After(w, t, P, e) ==
  IF P.fg THEN S(w, Goto(P, "fg"), e)
  ELSE IF P.z = "vw" THEN S(w, Goto(P, "vw"), e)
  ELSE IF P.z = "unwrapped" THEN Done([w EXCEPT !.hd[P.h] = [NoHd EXCEPT !.k = "V", !.v = P.v], !.at[P.h] = t],
                                      t, P, "ok", P.v, 0, w.gen[P.v], e)
  ELSE Done(w, t, P, "ok", 0, 0, 0, e)

(* Giving up a strong handle of Urc: inside the group first. Returns the label to go on with. *)
(* Entry for dropping handle h of group g whatever its kind. *)
UDrop(w, t, P, e) ==
  LET h == P.h H == w.hd[h] G == w.gp[H.g]
      (* make_mut keeps the handle for what it gets *)
      w0 == IF P.f = "mm" THEN w ELSE Gone(w, h)
      Q == [P EXCEPT !.b = G.b, !.g = H.g, !.fg = FALSE] IN
  IF H.k = "w" THEN
    IF G.w = 1 /\ G.s = 0 THEN S([w0 EXCEPT !.gp[H.g].w = 0], Goto([Q EXCEPT !.fg = TRUE], "rw"), e)
    ELSE After([w0 EXCEPT !.gp[H.g].w = @ - 1], t, Q, e)
  ELSE
    IF G.s = 1 /\ G.w = 0
    THEN S([w0 EXCEPT !.gp[H.g].s = 0], Goto([Q EXCEPT !.fg = G.bl # 0], "rs"), e)
    ELSE IF G.s = 1
    THEN IF "toweak" \in Weak THEN S([w0 EXCEPT !.gp[H.g].s = 0], Goto(Q, "rs0"), e)
         ELSE S([w0 EXCEPT !.gp[H.g].s = 0], Goto(Q, "wi"), e)
    ELSE After([w0 EXCEPT !.gp[H.g].s = @ - 1], t, Q, e)

(* One step of thread t. Local work goes with the step before it. *)
Step1(w, t, P) ==
  LET b == P.b h == P.h
      C == IF b \in DOMAIN w.ct THEN w.ct[b] ELSE [s |-> 0, w |-> 0, v |-> 0]
      at(k, c, o) == <<At(w, t, k, b, c, o)>>
      on(c) == Seen1(w, b, c) IN
  CASE P.pc = "new" ->
         LET w1 == NewV(w, 0) v == Len(w1.gen) m == Make(w1, t, v, P.n) IN
         Done(m.w, t, P, "ok", v, m.b, 0, << [E0("vn", t) EXCEPT !.v = v] >> \o m.e)
    [] P.pc = "inc" ->     (* one more strong handle (Arc) *)
         Done(SetH([on("s") EXCEPT !.ct[b].s = @ + 1], P.n, IF P.f = "env" THEN "e" ELSE "s", b, P.g, t),
              t, P, "ok", 0, 0, 0, at("rmw", "s", "x"))
    [] P.pc = "uenv" ->    (* one more group (Urc) *)
         LET g == Len(w.gp) + 1 bl == w.nb + 1 IN
         Done([SetH([on("s") EXCEPT !.ct[b].s = @ + 1], P.n, "e", b, g, t)
                 EXCEPT !.nb = bl, !.gp = Append(@, [s |-> 1, w |-> 0, b |-> b, bl |-> bl])],
              t, P, "ok", 0, 0, 0, at("rmw", "s", "a") \o <<AlE(t, bl)>>)
    (* downgrade: read, wait for the lock, compare and exchange *)
    [] P.pc = "dl" -> S(on("w"), [Goto(P, IF C.w = LOCK THEN "dw" ELSE "dc") EXCEPT !.c = C.w], at("ld", "w", "x"))
    [] P.pc = "dw" -> S(on("w"), [Goto(P, "dc") EXCEPT !.c = C.w], at("ld", "w", "x"))
    [] P.pc = "dc" ->
         IF C.w = P.c
         THEN Done(SetH([on("w") EXCEPT !.ct[b].w = @ + 1], P.n, "w", b, P.g, t), t, P, "ok", 0, 0, 0, at("rmw", "w", "a"))
         ELSE S(on("w"), [Goto(P, IF C.w = LOCK THEN "dw" ELSE "dc") EXCEPT !.c = C.w], at("ld", "w", "x"))
    (* releasing: strong count, value, weak count, block, block of the group *)
    [] P.pc \in {"rs", "rs0"} ->
         LET w1 == [on("s") EXCEPT !.ct[b].s = @ - 1] e == at("rmw", "s", Ord("rs", "r")) IN
         IF C.s = 1 THEN S(w1, Goto(P, "vd"), e) ELSE After(w1, t, P, e)
    [] P.pc = "wi" -> S([on("w") EXCEPT !.ct[b].w = @ + 1], Goto(P, "rs"), at("rmw", "w", "x"))
    [] P.pc = "vd" -> S(w, Goto(P, "rw"), FenceA(t, "vdf") \o <<Val("vd", t, w, C.v, b)>>)
    [] P.pc = "rw" ->
         LET w1 == [on("w") EXCEPT !.ct[b].w = @ - 1] e == at("rmw", "w", Ord("rw", "r")) IN
         IF C.w = 1 THEN S(w1, Goto(P, "fr"), e) ELSE After(w1, t, P, e)
    [] P.pc = "fr" -> After([w EXCEPT !.ct = [y \in DOMAIN @ \ {b} |-> @[y]]], t, P, FenceA(t, "frf") \o <<FrE(t, b)>>)
    [] P.pc = "fg" -> After(w, t, [P EXCEPT !.fg = FALSE], <<FrE(t, w.gp[P.g].bl)>>)
    (* exclusive access (Arc): lock the weak count, look at the strong one, unlock *)
    [] P.pc = "gm" ->
         IF "nolock" \in Weak
         THEN IF C.w = 1 THEN S(on("w"), Goto(P, "gs0"), at("ld", "w", "a")) ELSE Done(on("w"), t, P, "none", 0, 0, 0, at("ld", "w", "a"))
         ELSE IF C.w = 1 THEN S([on("w") EXCEPT !.ct[b].w = LOCK], Goto(P, "gs"), at("rmw", "w", Ord("gm", "a")))
         ELSE Done(on("w"), t, P, "none", 0, 0, 0, at("ld", "w", "x"))
    [] P.pc = "gs0" -> IF C.s = 1 THEN S(on("s"), Goto([P EXCEPT !.z = "vw"], "vw"), at("ld", "s", "a"))
                       ELSE Done(on("s"), t, P, "none", 0, 0, 0, at("ld", "s", "a"))
    [] P.pc = "gs" -> S(on("s"), [Goto(P, "gu") EXCEPT !.c = C.s], at("ld", "s", Ord("gs", "a")))
    [] P.pc = "gu" ->
         LET w1 == [on("w") EXCEPT !.ct[b].w = 1] e == at("st", "w", "r") IN
         IF P.c = 1 THEN S(w1, Goto(P, "vw"), e) ELSE Done(w1, t, P, "none", 0, 0, 0, e)
    (* exclusive access (Urc): both counts, strong first *)
    [] P.pc = "ug" -> IF C.s = 1 THEN S(on("s"), Goto(P, "uh"), at("ld", "s", Ord("ug", "a")))
                      ELSE Done(on("s"), t, P, "none", 0, 0, 0, at("ld", "s", "a"))
    [] P.pc = "uh" ->
         LET G == w.gp[P.g] IN
         IF C.w = 1 /\ G.s = 1 /\ G.w = 0 THEN S(on("w"), Goto(P, "vw"), at("ld", "w", "a"))
         ELSE Done(on("w"), t, P, "none", 0, 0, 0, at("ld", "w", "a"))
    (* the user writes *)
    [] P.pc = "vw" ->
         LET H == w.hd[h] v == w.ct[H.b].v w1 == [w EXCEPT !.gen[v] = @ + 1] IN
         Done(w1, t, P, IF P.f = "getmut" THEN "some" ELSE "ok", v, H.b, 0, <<Val("vw", t, w1, v, H.b)>>)
    [] P.pc = "vr" -> Done(w, t, P, "ok", C.v, b, 0, <<Val("vr", t, w, C.v, b)>>)
    (* copy on write *)
    [] P.pc = "ms" ->
         LET e == at("ld", "s", Ord("ms", "a")) IN
         IF C.s = 1 THEN (IF Fam = "urc" /\ w.gp[P.g].w # 0 THEN S(on("s"), Goto(P, "mv"), e) ELSE S(on("s"), Goto(P, "mw"), e))
         ELSE S(on("s"), Goto(P, "mc"), e)
    [] P.pc = "mw" -> S(on("w"), Goto(P, IF C.w = 1 \/ "inplace" \in Weak THEN "vw" ELSE "mv"), at("ld", "w", Ord("mw", "a")))
    [] P.pc = "mc" ->      (* clone: read, make the new object, then give up the old handle *)
         LET v0 == C.v w1 == NewV(w, w.gen[v0]) v == Len(w1.gen) IN
         S(w1, [Goto(P, "md") EXCEPT !.v = v],
           <<Val("vr", t, w, v0, b), [E0("vn", t) EXCEPT !.v = v], Val("vg", t, w1, v, 0)>>)
    [] P.pc = "md" ->
         LET m == Make(w, t, P.v, h) Q == [P EXCEPT !.z = "vw"] IN
         IF Fam = "arc" THEN S(m.w, Goto(Q, "rs"), m.e)
         ELSE LET g1 == m.w.hd[h].g
                  d == UDrop([m.w EXCEPT !.hd[h] = w.hd[h]], t, Q, m.e) IN
              [d EXCEPT !.x.hd[h] = m.w.hd[h]]
    [] P.pc = "mv" ->      (* move the value to a new object; the old one keeps its weak handles *)
         LET m == Make(w, t, C.v, h) IN
         S([m.w EXCEPT !.ct[b].s = 0, !.loc = Seen1(m.w, b, "s").loc,
                       !.gp = IF Fam = "urc" THEN [@ EXCEPT ![P.g].s = 0] ELSE @],
           IF Fam = "arc" THEN [Goto(P, "rw") EXCEPT !.z = "vw"]
           ELSE IF w.gp[P.g].w = 0 THEN [Goto(P, "rw") EXCEPT !.z = "vw", !.fg = TRUE]
           ELSE Goto(P, "vw"),
           m.e \o <<At(m.w, t, "st", b, "s", "x")>>)
    (* taking the value out *)
    [] P.pc = "uw" ->
         IF C.s # 1 THEN Done(on("s"), t, P, "err", 0, 0, 0, at("ld", "s", "x"))
         ELSE LET Q == [P EXCEPT !.z = "unwrapped", !.v = C.v]
                  w1 == [on("s") EXCEPT !.ct[b].s = 0] e == at("rmw", "s", Ord("uw", "a")) IN
              IF Fam = "arc" THEN S(Gone(w1, h), Goto(Q, "rw"), e)
              ELSE LET w2 == [Gone(w1, h) EXCEPT !.gp[P.g].s = 0] IN
                   IF w.gp[P.g].w = 0 THEN S(w2, Goto([Q EXCEPT !.fg = TRUE], "rw"), e) ELSE After(w2, t, Q, e)
    [] P.pc = "ud" -> Done(Gone(w, h), t, P, "ok", 0, 0, 0, <<Val("vd", t, w, P.n, 0)>>)
    [] P.pc = "sc" -> Done(on("s"), t, P, "ok", 0, 0, C.s, at("ld", "s", "a"))
    [] P.pc = "wc" -> Done(on("w"), t, P, "ok", 0, 0, IF C.w = LOCK THEN 0 ELSE C.w - 1, at("ld", "w", "a"))
    [] P.pc = "sole" -> Done(on("s"), t, P, "ok", 0, 0, IF C.s = 1 THEN 1 ELSE 0, at("ld", "s", "a"))
    (* inside a group *)
    [] P.pc = "ldrop" -> UDrop(w, t, P, <<>>)
    [] P.pc = "lclone" -> Done(SetH([w EXCEPT !.gp[P.g].s = @ + 1], P.n, "s", b, P.g, t), t, P, "ok", 0, 0, 0, <<>>)
    [] P.pc = "ldown" -> Done(SetH([w EXCEPT !.gp[P.g].w = @ + 1], P.n, "w", b, P.g, t), t, P, "ok", 0, 0, 0, <<>>)
    [] P.pc = "fsc" -> Done(w, t, P, "ok", 0, 0, w.gp[P.g].s, <<>>)
    [] P.pc = "fwc" -> Done(w, t, P, "ok", 0, 0, w.gp[P.g].w, <<>>)
    [] P.pc = "open" -> Done([w EXCEPT !.hd[h].k = "s"], t, P, "ok", 0, 0, 0, <<>>)
    [] P.pc = "err" -> Done(w, t, P, "err", 0, 0, 0, <<>>)
    [] P.pc = "det" -> IF w.gp[P.g].s = 1 /\ w.gp[P.g].w = 0 THEN Done([w EXCEPT !.hd[h].k = "f"], t, P, "ok", 0, 0, 0, <<>>)
                       ELSE Done(w, t, P, "err", 0, 0, 0, <<>>)
    [] P.pc = "unbox" -> Done([w EXCEPT !.hd[h].k = "v", !.gp[P.g].bl = 0], t, P, "ok", 0, 0, 0, <<FrE(t, w.gp[P.g].bl)>>)
    [] P.pc = "att" -> LET bl == w.nb + 1 IN
                       Done([w EXCEPT !.hd[h].k = "s", !.gp[P.g].bl = bl, !.nb = bl], t, P, "ok", C.v, b, 0, <<AlE(t, bl)>>)

Entry(w, f, h) ==
  LET k == w.hd[h].k IN
  CASE f = "new" -> "new"
    [] f = "read" -> "vr"
    [] f = "udrop" -> "ud"
    [] f = "unwrap" -> IF Fam = "urc" /\ w.gp[w.hd[h].g].s # 1 THEN "err" ELSE "uw"
    [] f = "mm" -> IF Fam = "urc" /\ w.gp[w.hd[h].g].s # 1 THEN "mc" ELSE "ms"
    [] f \in {"sc", "wc", "sole", "fsc", "fwc", "det", "unbox", "att", "open"} -> f
    [] Fam = "arc" -> (CASE f \in {"clone", "env"} -> "inc" [] f = "down" -> "dl"
                         [] f = "drop" -> IF k = "w" THEN "rw" ELSE "rs" [] f = "getmut" -> "gm")
    [] OTHER -> CASE f = "clone" -> "lclone" [] f = "down" -> "ldown" [] f = "env" -> "uenv"
                  [] f = "drop" -> "ldrop" [] f = "getmut" -> "ug"

(* The first step of an operation. *)
Begin(w, t, f, h, n) ==
  LET H == IF h = 0 THEN NoHd ELSE w.hd[h]
      P == [IdleP EXCEPT !.pc = Entry(w, f, h), !.f = f, !.h = h, !.n = n, !.b = H.b, !.g = H.g]
      w0 == IF Fam = "arc" /\ f = "drop" THEN Gone(w, h) ELSE w
      r == TLCEval(Step1(w0, t, P)) IN
  [r EXCEPT !.e = <<CallE(t, P)>> \o @]

RECURSIVE Fold(_, _, _, _)
Fold(tr, es, s, bs) ==
  IF es = <<>> THEN [st |-> s, bad |-> bs]
  ELSE LET j == TLCEval(CJudge(tr, Head(es), s)) IN Fold(tr, Tail(es), j.st, bs \cup j.bad)

(* --- starting situations: operations of the main thread, then who gets what *)
RECURSIVE Whole(_, _, _, _)
(* All of an operation of the main thread at once. *)
Whole(tr, w, s, r) ==
  LET f == Fold(tr, r.e, s, {}) IN
  IF r.p.pc = "idle" THEN [x |-> r.x, st |-> f.st, bad |-> f.bad]
  ELSE LET q == Whole(tr, r.x, f.st, TLCEval(Step1(r.x, 0, r.p))) IN [q EXCEPT !.bad = @ \cup f.bad]
RECURSIVE Prepare(_, _, _, _, _)
Prepare(tr, ops, w, s, bs) ==
  IF ops = <<>> THEN [x |-> w, st |-> s, bad |-> bs]
  ELSE LET o == Head(ops)
           q == Whole(tr, w, s, TLCEval(Begin(w, 0, o[1], o[2], o[3]))) IN
       Prepare(tr, Tail(ops), [q.x EXCEPT !.nh = MaxOf(@, o[3])], q.st, bs \cup q.bad)

N(f, h, n) == <<f, h, n>>
New == N("new", 0, 1)
Sh(ops, own) == [ops |-> ops, own |-> own]
All == IF Fam = "arc" THEN
  << Sh(<<New, N("clone", 1, 2)>>, <<1, 2>>),
     Sh(<<New, N("down", 1, 2)>>, <<1, 2>>),
     Sh(<<New, N("env", 1, 2)>>, <<1, 2>>),
     Sh(<<New, N("clone", 1, 2), N("down", 1, 3)>>, <<1, 2, 2>>),
     Sh(<<New, N("clone", 1, 2), N("down", 1, 3)>>, <<1, 2, 3>>),
     Sh(<<New, N("clone", 1, 2), N("clone", 1, 3)>>, <<1, 2, 3>>),
     Sh(<<New, N("down", 1, 2), N("down", 1, 3)>>, <<1, 2, 3>>) >>
 ELSE
  << Sh(<<New, N("env", 1, 2)>>, <<1, 2>>),
     Sh(<<New, N("down", 1, 2), N("env", 1, 3)>>, <<1, 1, 2>>),
     Sh(<<New, N("clone", 1, 2), N("env", 1, 3)>>, <<1, 1, 2>>),
     Sh(<<New, N("down", 1, 2), N("env", 1, 3), N("drop", 1, 0)>>, <<0, 1, 2>>),
     Sh(<<New, N("env", 1, 2), N("open", 2, 0), N("down", 2, 3)>>, <<1, 2, 2>>),
     Sh(<<New, N("env", 1, 2), N("env", 1, 3)>>, <<1, 2, 3>>),
     Sh(<<New, N("down", 1, 2), N("env", 1, 3), N("env", 1, 4)>>, <<1, 1, 2, 3>>) >>

Init ==
  \E i \in (IF Shapes = {} THEN DOMAIN All ELSE Shapes) :
    LET sh == All[i]
        n == LET m == {sh.own[j] : j \in DOMAIN sh.own} IN CHOOSE y \in m : \A z \in m : z <= y
        tr == Tr(n)
        q == TLCEval(Prepare(tr, sh.ops, World0(n), CStart(tr), {}))
        f == Fold(tr, <<E0("spawn", 0)>>, q.st, q.bad)
    IN /\ x = [q.x EXCEPT !.at = TLCEval([h \in DOMAIN @ |-> IF h \in DOMAIN sh.own THEN sh.own[h] ELSE 0])]
       /\ ps = [t \in 1..n |-> IdleP]
       /\ rem = [t \in 1..n |-> PerThread]
       /\ tot = Total
       /\ st = f.st /\ bad = f.bad

Threads == DOMAIN ps
Do(t, r) ==
  LET f == Fold(Tr(Cardinality(Threads)), r.e, st, {}) IN
  /\ x' = r.x /\ ps' = [ps EXCEPT ![t] = r.p]
  /\ st' = f.st /\ bad' = f.bad

Ops(k) ==
  IF Fam = "arc" THEN
    CASE k = "s" -> {"read", "clone", "down", "getmut", "mm", "unwrap", "drop", "sc", "wc", "env"}
      [] k = "w" -> {"drop"}
      [] k = "e" -> {"open", "drop"}
      [] k = "V" -> {"udrop"}
  ELSE
    CASE k = "s" -> {"read", "clone", "down", "env", "getmut", "mm", "unwrap", "drop", "sole", "fsc", "fwc", "det"}
      [] k = "e" -> {"open", "drop"}
      [] k = "f" -> {"unbox", "drop", "fsc"}
      [] k = "v" -> {"att", "drop", "fsc"}
      [] k = "w" -> {"drop"}
      [] k = "V" -> {"udrop"}
Sendable(k) == k \in (IF Fam = "arc" THEN {"s", "w", "e"} ELSE {"e", "v"})
Making == {"clone", "down", "env"}

Start(t) ==
  /\ ps[t].pc = "idle" /\ rem[t] > 0 /\ tot > 0
  /\ \E h \in {y \in DOMAIN x.hd : x.at[y] = t} : \E f \in Ops(x.hd[h].k) :
       LET n == IF f \in Making THEN x.nh + 1 ELSE IF f = "udrop" THEN x.hd[h].v ELSE 0
           w == IF f \in Making THEN [x EXCEPT !.nh = n] ELSE x IN
       /\ (f \in Making => n <= NH)
       /\ Do(t, TLCEval(Begin(w, t, f, h, n)))
  /\ rem' = [rem EXCEPT ![t] = @ - 1] /\ tot' = tot - 1

(* Only the weak count that is locked makes somebody wait. *)
CanGo(t) == ps[t].pc # "idle" /\ (ps[t].pc = "dw" => x.ct[ps[t].b].w # LOCK)
Go(t) == CanGo(t) /\ Do(t, TLCEval(Step1(x, t, ps[t]))) /\ UNCHANGED <<rem, tot>>

Pass(t, u) ==
  /\ ps[t].pc = "idle" /\ rem[t] > 0 /\ tot > 0
  /\ \E h \in {y \in DOMAIN x.hd : x.at[y] = t} :
       /\ Sendable(x.hd[h].k)
       /\ Do(t, [x |-> [x EXCEPT !.at[h] = 10 + u], p |-> ps[t], e |-> << [E0("snd", t) EXCEPT !.h = h, !.to = u] >>])
  /\ rem' = [rem EXCEPT ![t] = @ - 1] /\ tot' = tot - 1
Take(t) ==
  /\ ps[t].pc = "idle"
  /\ \E h \in {y \in DOMAIN x.hd : x.at[y] = 10 + t} :
       Do(t, [x |-> [x EXCEPT !.at[h] = t], p |-> ps[t], e |-> << [E0("rcv", t) EXCEPT !.h = h] >>])
  /\ UNCHANGED <<rem, tot>>

Next == /\ bad = {}
        /\ \E t \in Threads : Start(t) \/ Go(t) \/ Take(t) \/ \E u \in Threads \ {t} : Pass(t, u)

Spec == Init /\ [][Next]_vars

(* --- invariants *)
Contract == bad = {}

Quiet == \A t \in Threads : ps[t].pc = "idle"
Hs(b, ks) == {h \in DOMAIN x.hd : x.hd[h].b = b /\ x.hd[h].k \in ks}
GHs(g, ks) == {h \in DOMAIN x.hd : x.hd[h].g = g /\ x.hd[h].k \in ks}
Counts ==
  Quiet =>
    IF Fam = "arc" THEN
      /\ \A b \in DOMAIN x.ct :
           LET s == Cardinality(Hs(b, Strong)) w == Cardinality(Hs(b, {"w"})) IN
           x.ct[b].s = s /\ x.ct[b].w = w + (IF s > 0 THEN 1 ELSE 0) /\ x.ct[b].w > 0
      /\ \A h \in DOMAIN x.hd : x.hd[h].b # 0 => x.hd[h].b \in DOMAIN x.ct
    ELSE
      /\ \A g \in DOMAIN x.gp : x.gp[g].s = Cardinality(GHs(g, Strong)) /\ x.gp[g].w = Cardinality(GHs(g, {"w"}))
      /\ \A b \in DOMAIN x.ct :
           LET sg == {g \in DOMAIN x.gp : x.gp[g].b = b /\ x.gp[g].s > 0}
               wg == {g \in DOMAIN x.gp : x.gp[g].b = b /\ x.gp[g].s = 0 /\ x.gp[g].w > 0} IN
           x.ct[b].s = Cardinality(sg) /\ x.ct[b].w = Cardinality(wg) + (IF sg # {} THEN 1 ELSE 0) /\ x.ct[b].w > 0

(* Whoever is inside an operation waits only for somebody who is inside one and goes on. *)
Progress == (\E t \in Threads : ps[t].pc # "idle") => \E t \in Threads : CanGo(t)
=============================================================================
