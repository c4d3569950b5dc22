----------------------------- MODULE VectorClock -----------------------------
(* Processes that keep a vector clock each: every event raises the own entry,   *)
(* a message carries the clock of its sending and its receipt takes the maximum.*)
EXTENDS Integers, FiniteSets, TLC

At(v, p) == IF p \in DOMAIN v THEN v[p] ELSE 0
Tick(v, p) == (p :> At(v, p) + 1) @@ v
Max(v, w) == [p \in DOMAIN v \cup DOMAIN w |-> IF At(v, p) > At(w, p) THEN At(v, p) ELSE At(w, p)]
Leq(v, w) == \A p \in DOMAIN v : v[p] <= At(w, p)
Less(v, w) == Leq(v, w) /\ ~Leq(w, v)
=============================================================================
