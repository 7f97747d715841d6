------------------------------ MODULE LkBorrow ------------------------------
(* Contract of the borrows that the operations of lokky declare: which programs that look *)
(* at a container through views, and use it in between, the compiler must refuse, and     *)
(* which it must accept. A program is one container (object 0) and views of it.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* An operation: how it touches the object it is called on (r: reads, w: may change it,   *)
(* m: consumes it) and, if it returns a view, how that holds on to the object (s: others   *)
(* may look as well, x: alone, n: not at all; e: what it gives away never may be given     *)
(* away). glue: the view itself does something when it goes away. lax: need not be         *)
(* accepted. class: operations the view has itself.                                        *)
V(n, need, hold) == [n |-> n, need |-> need, hold |-> hold, glue |-> FALSE, lax |-> FALSE, class |-> ""]
A(n, need) == [n |-> n, need |-> need]

SliceViews == {V("deref", "r", "s"), V("as_ref", "r", "s"), V("borrow", "r", "s"), V("iter", "r", "s"), V("first", "r", "s"),
               V("deref_mut", "w", "x"), V("as_mut", "w", "x"), V("borrow_mut", "w", "x"), V("iter_mut", "w", "x"),
               V("first_mut", "w", "x"), V("split_mut", "w", "x")}
Keepers == {V("retain_keeps", "w", "e"), V("dedup_by_keeps", "w", "e"), V("dedup_by_key_keeps", "w", "e")}
Drained == [V("drain", "w", "x") EXCEPT !.glue = TRUE, !.class = "drain"]
Into == [V("into_iter", "m", "n") EXCEPT !.class = "into"]

VecViews == SliceViews \cup Keepers \cup
   {Drained, V("as_slice", "r", "s"), V("as_mut_slice", "w", "x"), V("spare_capacity", "r", "s"),
    V("spare_capacity_mut", "w", "x"), V("index", "r", "s"), V("index_mut", "w", "x"),
    V("clone", "r", "n"), V("as_ptr", "r", "n"), V("split_off", "w", "n"), V("pop", "w", "n"), V("remove", "w", "n"),
    V("swap_remove", "w", "n"), V("into_boxed_slice", "m", "n")}

CountedViews == {V("deref", "r", "s"), V("as_ref", "r", "s"), V("borrow", "r", "s"), V("field", "r", "s"),
                 V("get_mut", "w", "x"), V("make_mut", "w", "x"),
                 V("clone", "r", "n"), V("downgrade", "r", "n"), V("as_ptr", "r", "n"), V("try_unwrap", "m", "n")}

Holders == {[V(n, "r", "s") EXCEPT !.glue = TRUE, !.lax = TRUE] :
            n \in {"vec_of", "vec_from", "vec_push", "sv_of", "sv_from", "box_of", "rc_of", "arc_of", "urc_of", "ptr_of", "vec_collect", "sv_collect"}}

Views ==
  [vec   |-> VecViews \cup {Into, V("range", "r", "s"), V("range_mut", "w", "x"), V("leak", "m", "n")},
   sv    |-> VecViews \cup {V("as_sv", "r", "s"), V("as_sv_mut", "w", "x"), V("into_vec", "m", "n"), V("split_off_into", "w", "n"),
                            V("as_mut_ptr", "w", "n")},
   boxs  |-> (SliceViews \ {V("borrow", "r", "s"), V("borrow_mut", "w", "x")}) \cup {V("into_vec", "m", "n"), V("into_sv", "m", "n")},
   box   |-> {V("deref", "r", "s"), V("as_ref", "r", "s"), V("borrow", "r", "s"), V("field", "r", "s"),
              V("deref_mut", "w", "x"), V("as_mut", "w", "x"), V("borrow_mut", "w", "x"), V("field_mut", "w", "x"),
              V("into_inner", "m", "n"), V("into_rc", "m", "n")},
   ptr   |-> {V("deref", "r", "s"), V("deref_mut", "w", "x"), V("field", "r", "s"), V("field_mut", "w", "x"),
              V("into_inner", "m", "n"), V("marker", "r", "n")},
   ptrs  |-> {V("slice_ref", "r", "s"), V("slice_mut", "w", "x"), V("deref", "r", "s"), V("deref_mut", "w", "x")},
   text  |-> {V("as_bytes", "r", "s"), V("as_str", "r", "s"), V("as_ref", "r", "s"), V("deref", "r", "s"), V("borrow", "r", "s"),
              V("chars", "r", "s"), V("index_full", "r", "s"), V("index_to", "r", "s"), V("index_from", "r", "s"),
              V("index_range", "r", "s"), V("index_incl", "r", "s"), V("index_to_incl", "r", "s"),
              V("as_mut_str", "w", "x"), V("as_mut", "w", "x"), V("deref_mut", "w", "x"), V("borrow_mut", "w", "x"), V("as_mut_vec", "w", "x"),
              V("index_full_mut", "w", "x"), V("index_to_mut", "w", "x"), V("index_from_mut", "w", "x"),
              V("index_range_mut", "w", "x"), V("index_incl_mut", "w", "x"), V("index_to_incl_mut", "w", "x"),
              V("clone", "r", "n"), V("split_off", "w", "n"), V("pop", "w", "n"), V("from_ref", "r", "n"), V("plus", "m", "n")},
   rc    |-> CountedViews,
   arc   |-> CountedViews \cup {V("get_mut_unchecked", "w", "x")},
   urc   |-> CountedViews \cup {V("get_mut_unchecked", "w", "x"), V("fence_of", "r", "s"), V("try_into_fence", "m", "n")},
   rcw   |-> {V("upgrade", "r", "n"), V("clone", "r", "n")},
   into  |-> {V("as_slice", "r", "s"), V("as_slice_mut", "w", "x"), V("as_ref", "r", "s"), V("next", "w", "n"), V("next_back", "w", "n")},
   drain |-> {V("as_slice", "r", "s"), V("next", "w", "n"), V("next_back", "w", "n")},
   value |-> Holders \cup {V("current", "r", "s")},
   scope |-> {V("env", "w", "x")}]

Always == {A("touch", "r"), A("touch_mut", "w"), A("assign", "w"), A("swap", "w"), A("drop", "m")}
Compared == {A("eq", "r"), A("cmp", "r"), A("hash", "r"), A("debug", "r")}
VecActs == Always \cup Compared \cup
   {A("len", "r"), A("capacity", "r"), A("is_empty", "r"), A("is_full", "r"), A("spare_len", "r"),
    A("push", "w"), A("pop", "w"), A("clear", "w"), A("insert", "w"), A("remove", "w"), A("swap_remove", "w"), A("truncate", "w"),
    A("reserve", "w"), A("reserve_exact", "w"), A("try_reserve", "w"), A("try_reserve_exact", "w"), A("shrink_to", "w"),
    A("shrink_to_fit", "w"), A("append", "w"), A("appended", "w"), A("extend_from_slice", "w"), A("split_off", "w"),
    A("resize", "w"), A("resize_with", "w"), A("retain", "w"), A("dedup", "w"), A("dedup_by", "w"), A("dedup_by_key", "w"),
    A("drain_all", "w"), A("into_boxed_slice", "m")}
CountedActs == Always \cup Compared \cup
   {A("counts", "r"), A("ptr_eq", "r"), A("clone", "r"), A("downgrade", "r"), A("get_mut", "w"), A("make_mut", "w"), A("try_unwrap", "m")}

Acts ==
  [vec   |-> VecActs \cup {A("marker", "r"), A("extend_from_iter", "w"), A("leak", "m"), A("into_iter", "m"), A("dealloc_without_drop", "m")},
   sv    |-> VecActs \cup {A("is_heap", "r"), A("is_stack", "r"), A("move_to_heap", "w"), A("try_move_to_stack", "w"),
                           A("try_move_to_heap_and_reserve_exact", "w"), A("extend", "w"), A("split_off_into", "w"), A("into_vec", "m")},
   boxs  |-> Always \cup Compared \cup {A("into_vec", "m")},
   box   |-> Always \cup Compared \cup {A("into_inner", "m"), A("into_rc", "m")},
   ptr   |-> Always \cup {A("marker", "r"), A("selector", "r"), A("forget", "m"), A("into_inner", "m"), A("cast", "m")},
   ptrs  |-> Always \cup {A("marker", "r"), A("realloc_array", "w"), A("forget", "m")},
   text  |-> Always \cup Compared \cup
              {A("len", "r"), A("capacity", "r"), A("is_empty", "r"), A("display", "r"),
               A("push", "w"), A("push_str", "w"), A("pop", "w"), A("clear", "w"), A("remove", "w"), A("insert", "w"), A("insert_str", "w"),
               A("truncate", "w"), A("split_off", "w"), A("retain", "w"), A("reserve", "w"), A("reserve_exact", "w"), A("try_reserve", "w"),
               A("try_reserve_exact", "w"), A("shrink_to", "w"), A("shrink_to_fit", "w"), A("extend_chars", "w"), A("extend_strs", "w"),
               A("add_assign", "w"), A("write", "w"), A("plus", "m")},
   rc    |-> CountedActs,
   arc   |-> CountedActs,
   urc   |-> CountedActs \cup {A("fence_counts", "r"), A("try_into_fence", "m")},
   rcw   |-> Always \cup {A("counts", "r"), A("ptr_eq", "r"), A("upgrade", "r"), A("clone", "r")},
   into  |-> Always \cup {A("len", "r"), A("next", "w"), A("next_back", "w")},
   drain |-> {A("touch", "r"), A("touch_mut", "w"), A("drop", "m"), A("len", "r"), A("next", "w"), A("next_back", "w")},
   value |-> {A("touch", "r"), A("touch_mut", "w"), A("assign", "w"), A("drop", "m")},
   scope |-> {A("touch", "r"), A("touch_mut", "w"), A("assign", "w"), A("drop", "m")}]

View(con, n) == CHOOSE v \in Views[con] : v.n = n
Act(con, n) == CHOOSE a \in Acts[con] : a.n = n

(* A step of a program: view (makes object number v from object of), act (on object of),   *)
(* use (of object of, as it is meant to be used).                                          *)
(* The state: what the objects are, and whether the compiler must already have refused.    *)
Obj(con, from, hold, glue) == [con |-> con, from |-> from, hold |-> hold, glue |-> glue, live |-> TRUE, valid |-> TRUE]
BInit(con) == [objs |-> [k \in {0} |-> Obj(con, -1, "n", FALSE)], refuse |-> FALSE, lax |-> FALSE]

(* The object that holds on to o directly, on the way from v to o (v itself if none). *)
RECURSIVE Link(_, _, _)
Link(objs, v, o) == IF objs[v].from = o \/ objs[v].from < 0 THEN v ELSE Link(objs, objs[v].from, o)
Under(objs, v, o) == v # o /\ objs[Link(objs, v, o)].from = o

Touch(s, o, how) ==
  LET bad == ~s.objs[o].live \/ ~s.objs[o].valid
      ends(v) == Under(s.objs, v, o) /\ (how # "r" \/ s.objs[Link(s.objs, v, o)].hold = "x") IN
  [s EXCEPT !.refuse = @ \/ bad,
            !.objs = TLCEval([v \in DOMAIN s.objs |->
                        [s.objs[v] EXCEPT !.valid = @ /\ ~ends(v),
                                          !.live = @ /\ ~(v = o /\ how = "m")]])]

BStep(s, t) ==
  CASE t.op = "view" ->
         LET w == View(s.objs[t.of].con, t.n) u == Touch(s, t.of, w.need) IN
         [u EXCEPT !.refuse = @ \/ w.hold = "e", !.lax = @ \/ w.lax,
                   !.objs = TLCEval([k \in DOMAIN u.objs \cup {t.v} |->
                       IF k = t.v
                       THEN Obj(w.class, IF w.hold \in {"s", "x"} THEN t.of ELSE -1, w.hold, w.glue)
                       ELSE u.objs[k]])]
    [] t.op = "act" -> Touch(s, t.of, Act(s.objs[t.of].con, t.n).need)
    [] t.op = "use" -> Touch(s, t.of, IF s.objs[t.of].hold = "x" THEN "w" ELSE "r")

(* At the end the views that do something when they go away still exist. *)
BEnd(s) == s.refuse \/ \E v \in DOMAIN s.objs : s.objs[v].glue /\ s.objs[v].live /\ ~s.objs[v].valid

RECURSIVE BRun(_, _, _)
BRun(s, steps, k) == IF k > Len(steps) THEN s ELSE BRun(BStep(s, steps[k]), steps, k + 1)

(* Judgement of a program: whether the compiler took it. *)
BJudge(con, steps, taken) ==
  LET s == BRun(BInit(con), steps, 1) IN
  IF taken THEN (IF BEnd(s) THEN {"stale"} ELSE {})
  ELSE IF BEnd(s) \/ s.lax THEN {} ELSE {"refused"}
=============================================================================
