------------------------------ MODULE MCTypes ------------------------------
(* All types up to a depth, each with everything the contract allows to be granted.      *)
(* Granting is sound: what safe code in another thread can then do to the base value,    *)
(* worked out from what each constructor lets its holder do, is what the base allows.    *)
EXTENDS LkTypes

CONSTANT Depth

VARIABLES base, cons, hs     \* outermost constructor last; what is harmless for each
vars == <<base, cons, hs>>

(* What another thread gets at, inside, when it owns / refers to / receives a con<T>.     *)
(* own: it owns a T; see: it refers to a T that others use; race: it touches what is for  *)
(* one thread only; got: it takes a T out of an envelope.                                 *)
Owned(con) ==
  CASE con \in Owners -> {"own"}
    [] con \in Shared \cup {"fence"} -> {"own", "see"}   \* others have handles; it may have the last one
    [] con \in Counted -> {"race"}
    [] con = "envl" -> {"got"}
Seen(con) ==
  CASE con \in Owners -> {"see"}
    [] con \in Shared -> {"own", "see"}                  \* it can clone it
    [] con \in Counted \cup {"fence"} -> {"race"}
    [] con = "envl" -> {}
Got(con) ==
  CASE con \in Owners -> {"own"}
    [] con \in Shared \cup {"urc", "urcw"} -> {"own", "see"}
    [] OTHER -> {"race"}

(* What happens to the base value if another thread gets what to the type made by cs.     *)
RECURSIVE Reach(_, _)
Reach(cs, what) ==
  IF cs = <<>> THEN {what}
  ELSE LET c == cs[Len(cs)] r == SubSeq(cs, 1, Len(cs) - 1)
           next == CASE what = "own" -> Owned(c) [] what = "see" -> Seen(c) [] OTHER -> Got(c)
       IN UNION {IF n = "race" THEN {"race"} ELSE Reach(r, n) : n \in next}

In(k) == IF k = 0 THEN Bases[base] ELSE hs[k]      \* what is harmless for the k innermost

(* An envelope exists only of what may be put into one. *)
Exists(cs) == \A k \in DOMAIN cs : (cs[k] = "envl" => k > 1 /\ MayEnv(cs[k - 1], In(k - 2)))

Allowed(what) ==   \* of the base
  CASE what = "own" -> Bases[base].own [] what = "see" -> Bases[base].see [] OTHER -> FALSE

Sound ==
  cons # <<>> /\ Exists(cons) =>
     LET n == Len(cons) c == cons[n] i == In(n - 1) IN
     /\ MaySend(c, i) => \A w \in Reach(cons, "own") : Allowed(w)
     /\ MaySync(c, i) => \A w \in Reach(cons, "see") : Allowed(w)
     /\ MayEnv(c, i) => \A w \in Reach(cons, "got") : Allowed(w)

(* Nothing the contract demands is forbidden by it. *)
Flags == [send : BOOLEAN, sync : BOOLEAN, con : Cons \cup {""}]
Consistent ==
  cons # <<>> =>
     LET n == Len(cons) c == cons[n] i == In(n - 1) IN
     \A g \in Flags :
        (g.send => i.own) /\ (g.sync => i.see) =>
           /\ MustSend(c, g) => MaySend(c, i)
           /\ MustSync(c, g) => MaySync(c, i)
           /\ MustEnv(c, i, g) => MayEnv(c, i)

Init == base \in DOMAIN Bases /\ cons = <<>> /\ hs = <<>>

Next == /\ Len(cons) < Depth
        /\ \E c \in Cons :
             /\ cons' = Append(cons, c)
             /\ hs' = Append(hs, Harmless(c, In(Len(cons))))
             /\ UNCHANGED base
        /\ PrintT("TY|" \o base \o "|" \o ToString(cons'))

Spec == Init /\ [][Next]_vars
=============================================================================
