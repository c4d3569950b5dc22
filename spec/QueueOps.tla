------------------------------ MODULE QueueOps ------------------------------
(* The bounded FIFO queue handed out by the simple queue plugin, as the set of *)
(* things one call may do. A state is [cap, q, canc]: capacity, contents and    *)
(* the threads whose current call's context has been cancelled.                 *)
EXTENDS Naturals, Sequences

QueueInit(cap) == [cap |-> cap, q |-> << >>, canc |-> {}]

QueueSteps(s, t, op) ==
  CASE op.op = "push" ->
         (IF Len(s.q) < s.cap
            THEN {[st |-> [s EXCEPT !.q = Append(@, op.v)], res |-> [ok |-> TRUE, v |-> "", err |-> FALSE]]}
            ELSE {})
         \cup
         (IF t \in s.canc
            THEN {[st |-> s, res |-> [ok |-> FALSE, v |-> "", err |-> FALSE]]}
            ELSE {})
    [] op.op = "pop" ->
         (IF s.q # << >>
            THEN {[st |-> [s EXCEPT !.q = Tail(@)], res |-> [ok |-> TRUE, v |-> Head(s.q), err |-> FALSE]]}
            ELSE {})
         \cup
         (IF t \in s.canc
            THEN {[st |-> s, res |-> [ok |-> FALSE, v |-> "", err |-> FALSE]]}
            ELSE {})

QueueCancel(s, t)   == [s EXCEPT !.canc = @ \cup {t}]
QueueUncancel(s, t) == [s EXCEPT !.canc = @ \ {t}]
=============================================================================
