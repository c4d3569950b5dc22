---------------------------- MODULE VectorClockMC ----------------------------
(* Every run of a few processes that call each other: the clocks of two events  *)
(* are ordered exactly as the events are. past is the ghost: all events that    *)
(* happened before the next one of a process.                                   *)
EXTENDS VectorClock, Sequences
CONSTANTS Procs, MaxEvents
VARIABLES clock, events, past, msgs
vars == <<clock, events, past, msgs>>

Init == clock = [p \in Procs |-> << >>] /\ events = << >> /\ past = [p \in Procs |-> {}] /\ msgs = {}
Id == Len(events) + 1
Add(p, v, before) == /\ clock' = [clock EXCEPT ![p] = v]
                     /\ events' = Append(events, [clock |-> v, before |-> before])
                     /\ past' = [past EXCEPT ![p] = before \cup {Id}]
More == Len(events) < MaxEvents
Local(p) == More /\ Add(p, Tick(clock[p], p), past[p]) /\ UNCHANGED msgs
Send(p, q, what) == LET v == Tick(clock[p], p) IN
  More /\ Add(p, v, past[p]) /\ msgs' = msgs \cup {[to |-> q, from |-> p, what |-> what, clock |-> v, id |-> Id, past |-> past[p] \cup {Id}]}
Recv(m) == /\ More /\ m \in msgs
           /\ Add(m.to, Max(Tick(clock[m.to], m.to), m.clock), past[m.to] \cup m.past)
           /\ msgs' = msgs \ {m}
\* a request is answered at some time (a process may call itself)
Answer(m) == m \in msgs /\ m.what = "req" /\ Recv(m)
Next == \/ \E p \in Procs : Local(p) \/ \E q \in Procs : Send(p, q, "req") \/ Send(p, q, "res")
        \/ \E m \in msgs : Recv(m)
Spec == Init /\ [][Next]_vars

Exact == \A i, j \in 1..Len(events) : Less(events[i].clock, events[j].clock) <=> i \in events[j].before
Distinct == \A i, j \in 1..Len(events) : i # j => events[i].clock # events[j].clock
=============================================================================
