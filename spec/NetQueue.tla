------------------------------ MODULE NetQueue ------------------------------
(* The broker's queue step by step: items pushed by clients travel to the       *)
(* broker, which hands each to one of the popping clients, which give them to    *)
(* their pops. NetQueueOps is what this can look like from outside: Refines.    *)
EXTENDS NetQueueOps, FiniteSets
CONSTANTS Pushers, Poppers, Items
VARIABLES left, wire, queue, held, st

vars == <<left, wire, queue, held, st>>
Init == /\ left = [p \in Pushers |-> Items]
        /\ wire = [p \in Pushers |-> << >>]
        /\ queue = << >>
        /\ held = [c \in Poppers |-> << >>]
        /\ st = NetQInit

Item(p) == <<p, Items - left[p] + 1>>
Push(p) == /\ left[p] > 0
           /\ wire' = [wire EXCEPT ![p] = Append(@, Item(p))]
           /\ \E r \in NetQSteps(st, p, [op |-> "push", q |-> "q", c |-> p, v |-> Item(p)]) : st' = r.st
           /\ left' = [left EXCEPT ![p] = @ - 1]
           /\ UNCHANGED <<queue, held>>
Arrive(p) == /\ wire[p] # << >>
             /\ queue' = Append(queue, Head(wire[p]))
             /\ wire' = [wire EXCEPT ![p] = Tail(@)]
             /\ UNCHANGED <<left, held, st>>
Hand(c) == /\ queue # << >>
           /\ held' = [held EXCEPT ![c] = Append(@, Head(queue))]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<left, wire, st>>
(* What a pop gives is one of the things NetQueueOps lets it give. *)
Allowed(c) == {r \in NetQSteps(st, c, [op |-> "pop", q |-> "q", c |-> c]) : r.res.v = Head(held[c])}
Pop(c) == /\ held[c] # << >>
          /\ IF Allowed(c) = {} THEN st' = NetQDown(st) ELSE \E r \in Allowed(c) : st' = r.st
          /\ held' = [held EXCEPT ![c] = Tail(@)]
          /\ UNCHANGED <<left, wire, queue>>
Next == (\E p \in Pushers : Push(p) \/ Arrive(p)) \/ (\E c \in Poppers : Hand(c) \/ Pop(c))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines == ~st.down
\* nothing is lost or invented: what is not popped is somewhere
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(f[x]) + Sum(f, S \ {x})
Conservation == Sum(st.q, DOMAIN st.q) = Sum(wire, Pushers) + Len(queue) + Sum(held, Poppers)
Drained == <>[](Empty(st))
=============================================================================
