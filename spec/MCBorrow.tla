------------------------------ MODULE MCBorrow ------------------------------
(* All programs of a few steps. What each does is played on a memory cell with a stack of  *)
(* permissions (a permission is gone once one below it was used in a way that excludes it, *)
(* or the cell is released). A program goes wrong exactly if the contract has it refused.  *)
EXTENDS LkBorrow

CONSTANTS Depth, MaxViews, Abstract

VARIABLES con, steps, s, stack, dead, wrong
vars == <<con, steps, s, stack, dead, wrong>>

(* The abstract container has one operation of each kind. *)
Every == {[V("any", n, h) EXCEPT !.glue = g] : n \in {"r", "w", "m"}, h \in {"s", "x", "n"}, g \in BOOLEAN}
Kinds == {v \in Every : (v.hold = "s" => v.need = "r") /\ (v.hold = "x" => v.need = "w") /\ (v.hold = "n" => ~v.glue)}

NameOf(v) == v.need \o v.hold \o (IF v.glue THEN "g" ELSE "")
AbsViews == {[v EXCEPT !.n = NameOf(v), !.class = IF v.hold = "n" THEN "" ELSE "abs"] : v \in Kinds}
AbsActs == {A("r", "r"), A("w", "w"), A("m", "m")}

MCViews == [abs |-> AbsViews] @@ Views
MCActs == [abs |-> AbsActs] @@ Acts
ViewOf(c, n) == IF c = "abs" THEN CHOOSE v \in AbsViews : v.n = n ELSE View(c, n)
ActOf(c, n) == IF c = "abs" THEN CHOOSE a \in AbsActs : a.n = n ELSE Act(c, n)

(* --- the memory: permissions from the oldest to the youngest: [tag, x] --- *)
Has(st, tag) == \E k \in DOMAIN st : st[k].tag = tag
Pos(st, tag) == CHOOSE k \in DOMAIN st : st[k].tag = tag
(* What remains after a read, or a write, through a permission. *)
Read(st, tag) == LET p == Pos(st, tag) IN SelectSeq(st, LAMBDA e : Pos(st, e.tag) <= p \/ ~e.x)
Write(st, tag) == SubSeq(st, 1, Pos(st, tag))

(* Every owner (the container, a view that holds on to nothing) has a cell of its own.     *)
RECURSIVE Root(_)
Root(o) == IF s.objs[o].from < 0 THEN o ELSE Root(s.objs[o].from)

(* Object o (its permission has its number) is used. *)
Access(o, how) ==
  LET r == Root(o) st == stack[r] IN
  IF ~Has(st, o) \/ o \in dead THEN [st |-> stack, ok |-> FALSE, dead |-> dead]
  ELSE [st |-> [stack EXCEPT ![r] = IF how = "r" THEN Read(st, o) ELSE IF how = "w" THEN Write(st, o)
                                    ELSE SubSeq(st, 1, Pos(st, o) - 1)],
        ok |-> TRUE, dead |-> IF how = "m" THEN dead \cup {o} ELSE dead]

Init == /\ con \in (IF Abstract THEN {"abs"} ELSE DOMAIN Views \ {"drain"})
        /\ steps = <<>>
        /\ s = BInit(con)
        /\ stack = [k \in {0} |-> <<[tag |-> 0, x |-> TRUE]>>]
        /\ dead = {}
        /\ wrong = FALSE

Text(t) == t.op \o " " \o ToString(t.of) \o " " \o t.n

Do(t, a, st2) ==
  /\ steps' = Append(steps, t)
  /\ stack' = st2
  /\ dead' = a.dead
  /\ UNCHANGED con

(* The contract's step; the abstract operations are not in its tables. *)
Contract(t) ==
  IF con # "abs" THEN BStep(s, t)
  ELSE CASE t.op = "view" ->
         LET w == ViewOf("abs", t.n) u == Touch(s, t.of, w.need) IN
         [u EXCEPT !.objs = TLCEval([k \in DOMAIN u.objs \cup {t.v} |->
                       IF k = t.v THEN Obj(w.class, IF w.hold = "n" THEN -1 ELSE t.of, w.hold, w.glue) ELSE u.objs[k]])]
    [] t.op = "act" -> Touch(s, t.of, ActOf("abs", t.n).need)
    [] t.op = "use" -> BStep(s, t)

DoView ==
  /\ (Abstract \/ Len(steps) < Depth - 1)
  /\ Cardinality(DOMAIN s.objs) <= MaxViews
  /\ \E o \in DOMAIN s.objs : s.objs[o].con # "" /\ (s.objs[o].con = "abs" => s.objs[o].hold # "s" /\ (o # 0 => s.objs[o].glue)) /\
       \E w \in MCViews[s.objs[o].con] :
          LET v == Cardinality(DOMAIN s.objs)
              a == Access(o, w.need)
              t == [op |-> "view", of |-> o, n |-> w.n, v |-> v] IN
          /\ s' = Contract(t)
          /\ wrong' = (wrong \/ ~a.ok \/ w.hold = "e")
          /\ Do(t, a, IF w.hold \in {"s", "x"}
                      THEN (IF a.ok THEN [a.st EXCEPT ![Root(o)] = Append(@, [tag |-> v, x |-> w.hold = "x"])] ELSE a.st)
                      ELSE (v :> <<[tag |-> v, x |-> TRUE]>>) @@ a.st)

DoAct ==
  \E o \in DOMAIN s.objs : s.objs[o].con # "" /\ (s.objs[o].con = "abs" => s.objs[o].hold # "s" /\ (o # 0 => s.objs[o].glue)) /\
     \E x \in MCActs[s.objs[o].con] :
        LET a == Access(o, x.need) t == [op |-> "act", of |-> o, n |-> x.n, v |-> 0] IN
        /\ s' = Contract(t)
        /\ wrong' = (wrong \/ ~a.ok)
        /\ Do(t, a, a.st)

DoUse ==
  \E o \in DOMAIN s.objs \ {0} :
     LET a == Access(o, IF s.objs[o].hold = "x" THEN "w" ELSE "r") t == [op |-> "use", of |-> o, n |-> "use", v |-> 0] IN
     /\ s' = Contract(t)
     /\ wrong' = (wrong \/ ~a.ok)
     /\ Do(t, a, a.st)

(* Of programs made of real operations only those matter that use a view at last. *)
Ends == steps'[Len(steps')].op = "use" \/ \E v \in DOMAIN s'.objs : s'.objs[v].glue
Line == "BO|" \o con \o "|" \o Text(steps'[1])
        \o (IF Len(steps') > 1 THEN ";" \o Text(steps'[2]) ELSE "")
        \o (IF Len(steps') > 2 THEN ";" \o Text(steps'[3]) ELSE "")
        \o (IF Len(steps') > 3 THEN ";" \o Text(steps'[4]) ELSE "")

Next == /\ Len(steps) < Depth
        /\ ~wrong                    \* nothing follows what is refused already
        /\ \/ DoView
           \/ ((Abstract \/ Len(steps) \in 1..(Depth - 2)) /\ DoAct)
           \/ DoUse
        /\ (IF Abstract \/ ~Ends THEN TRUE ELSE PrintT(Line))

(* What goes wrong at the end: a view that does something when it goes away is used. *)
AtEnd == \E v \in DOMAIN s.objs : s.objs[v].glue /\ v \notin dead /\ ~Has(stack[Root(v)], v)

Sound == (wrong => s.refuse) /\ (AtEnd => BEnd(s))
(* Nothing harmless is refused, but for looking on through a shared view of an exclusive    *)
(* one while others look as well.                                                           *)
Nested == \E v \in DOMAIN s.objs : s.objs[v].hold = "s" /\ s.objs[v].from # 0
Exact == BEnd(s) => wrong \/ AtEnd \/ Nested

Spec == Init /\ [][Next]_vars
=============================================================================
