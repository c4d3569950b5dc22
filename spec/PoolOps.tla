------------------------------- MODULE PoolOps ------------------------------
(* The client pool. held: clients in a caller's hands; idle: returned ones;     *)
(* fresh: built, on their way to the caller; failed: constructions that failed  *)
(* and are on their way to being reported; building: constructions running.     *)
EXTENDS Naturals, Sequences, FiniteSets

PoolInit(cap, single) == [cap |-> cap, single |-> single, held |-> {}, idle |-> {}, fresh |-> {},
                          failed |-> 0, building |-> 0, canc |-> {}]
Alive(s) == s.held \cup s.idle \cup s.fresh
Got(c)   == [c |-> c, err |-> "", n |-> << >>]
Err(e)   == [c |-> 0, err |-> e, n |-> << >>]

PoolSteps(s, t, op) ==
  CASE op.op = "pop" ->
         {[st |-> [s EXCEPT !.idle = @ \ {c}, !.held = @ \cup {c}], res |-> Got(c)] : c \in s.idle}
         \cup {[st |-> [s EXCEPT !.fresh = @ \ {c}, !.held = @ \cup {c}], res |-> Got(c)] : c \in s.fresh}
         \cup (IF s.failed > 0 THEN {[st |-> [s EXCEPT !.failed = @ - 1], res |-> Err("build")]} ELSE {})
         \cup (IF t \in s.canc THEN {[st |-> s, res |-> Err("ctx")]} ELSE {})
    [] op.op = "push" ->
         IF op.c \in s.held THEN {[st |-> [s EXCEPT !.held = @ \ {op.c}, !.idle = @ \cup {op.c}], res |-> Got(0)]} ELSE {}
    \* the reported numbers, asked for while nothing else goes on
    [] op.op = "stat" -> {[st |-> s, res |-> [c |-> 0, err |-> "", n |-> <<s.cap, Cardinality(Alive(s)), Cardinality(s.idle)>>]]}

PoolEnv(s, ev) ==
  CASE ev.what = "cancel" -> {[s EXCEPT !.canc = @ \cup {ev.t}]}
    [] ev.what = "build"  -> IF Cardinality(Alive(s)) + s.building < s.cap /\ (s.single => s.idle = {})
                               THEN {[s EXCEPT !.building = @ + 1]} ELSE {}
    [] ev.what = "built"  -> {[s EXCEPT !.building = @ - 1, !.fresh = @ \cup {ev.t}]}
    [] ev.what = "failed" -> {[s EXCEPT !.building = @ - 1, !.failed = @ + 1]}
    [] OTHER -> {}
=============================================================================
