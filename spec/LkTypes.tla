------------------------------ MODULE LkTypes ------------------------------
(* Contract of what the types of lokky let safe code do across threads. A type is built  *)
(* from a base (a user's type, which may or may not be moved to / shared with another    *)
(* thread) by constructors. What the compiler grants is recorded for every such type.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Owners == {"box", "vec", "sv", "into", "drain", "ptr"}   \* memory of one scope, contents inside
Counted == {"rc", "rcw", "urc", "urcw"}                  \* counts that only one thread may touch
Shared == {"arc", "arcw"}                                \* counts for all threads
Cons == Owners \cup Counted \cup Shared \cup {"fence", "envl"}

(* A user's type: whether its values may be moved to another thread, and used from two.  *)
Bases == [both |-> [own |-> TRUE,  see |-> TRUE],
          send |-> [own |-> TRUE,  see |-> FALSE],
          sync |-> [own |-> FALSE, see |-> TRUE],
          none |-> [own |-> FALSE, see |-> FALSE]]

Free(i) == i.own /\ i.see

(* The same for con<T> where T has what i says: what is harmless, whatever is granted.   *)
Harmless(con, i) ==
  CASE con \in Owners -> [own |-> i.own, see |-> i.see]
    [] con \in Shared -> [own |-> Free(i), see |-> Free(i)]
    [] con = "fence" -> [own |-> Free(i), see |-> FALSE]
    [] con = "envl" -> [own |-> TRUE, see |-> TRUE]  \* what it holds passed MayEnv; by reference it gives no access
    [] OTHER -> [own |-> FALSE, see |-> FALSE]

(* What may be granted to con<T>. *)
MaySend(con, i) ==      \* what belongs to a scope leaves it in an envelope only
  IF con \in Owners THEN FALSE ELSE Harmless(con, i).own
MaySync(con, i) == Harmless(con, i).see
MayEnv(con, i) ==       \* the receiver gets a handle of its own
  CASE con \in Shared \cup {"urc", "urcw"} -> Free(i)
    [] con \in Owners -> i.own
    [] OTHER -> FALSE

(* What must be granted, g being what is granted to T and in what T is a constructor of.  *)
MustSend(con, g) == con = "envl" \/ (con \in Shared \cup {"fence"} /\ g.send /\ g.sync)
MustSync(con, g) == con \in Shared /\ g.send /\ g.sync
MustEnv(con, i, g) == con \in {"arc", "urc"} /\ Free(i) /\ (g.con \in Owners \/ (g.send /\ g.sync))

(* i: what is harmless for T; g: what was recorded for T; e: what was recorded for con<T>. *)
TJudge(con, i, g, e) ==
  (IF e.send /\ ~MaySend(con, i) THEN {"send"} ELSE {})
  \cup (IF e.sync /\ ~MaySync(con, i) THEN {"sync"} ELSE {})
  \cup (IF e.env /\ ~MayEnv(con, i) THEN {"env"} ELSE {})
  \cup (IF ~e.send /\ MustSend(con, g) THEN {"nosend"} ELSE {})
  \cup (IF ~e.sync /\ MustSync(con, g) THEN {"nosync"} ELSE {})
  \cup (IF ~e.env /\ MustEnv(con, i, g) THEN {"noenv"} ELSE {})
=============================================================================
