------------------------------- MODULE Queue --------------------------------
(* Producers and consumers over the bounded queue: design-level properties.    *)
EXTENDS QueueOps, FiniteSets, TLC
CONSTANTS Producers, Consumers, Cap, PerProducer
VARIABLES s, sent, got, gave   \* queue state, items sent per producer, items received per consumer, refused pushes

vars == <<s, sent, got, gave>>
Threads == Producers \cup Consumers
Item(p, n) == <<p, n>>

Init == /\ s = QueueInit(Cap)
        /\ sent = [p \in Producers |-> 0]
        /\ gave = {}
        /\ got = << >>

Push(p) ==
  /\ sent[p] < PerProducer
  /\ \E r \in QueueSteps(s, p, [op |-> "push", v |-> Item(p, sent[p])]) :
       /\ s' = QueueUncancel(r.st, p)
       /\ gave' = IF r.res.ok THEN gave ELSE gave \cup {Item(p, sent[p])}
  /\ sent' = [sent EXCEPT ![p] = @ + 1]
  /\ UNCHANGED got

Pop(c) ==
  /\ \E r \in QueueSteps(s, c, [op |-> "pop"]) :
       /\ s' = QueueUncancel(r.st, c)
       /\ got' = IF r.res.ok THEN Append(got, r.res.v) ELSE got
  /\ UNCHANGED <<sent, gave>>

Cancel(t) == /\ t \notin s.canc
             /\ s' = QueueCancel(s, t)
             /\ UNCHANGED <<sent, got, gave>>

Next == (\E p \in Producers : Push(p)) \/ (\E c \in Consumers : Pop(c)) \/ (\E t \in Threads : Cancel(t))
(* A popper whose call is not cancelled keeps trying. *)
PopOk(c) == Pop(c) /\ Len(got') > Len(got)
Fairness == \A c \in Consumers : WF_vars(PopOk(c))
Spec == Init /\ [][Next]_vars /\ Fairness

Bounded == Len(s.q) <= Cap
ToSet(q) == {q[i] : i \in 1..Len(q)}
Sent == {Item(p, n) : p \in Producers, n \in 0..PerProducer-1}
Accepted == {i \in Sent : i[2] < sent[i[1]]} \ gave
(* Nothing is lost, invented or duplicated. *)
Conservation == /\ ToSet(got \o s.q) = Accepted
                /\ Len(got \o s.q) = Cardinality(Accepted)
(* Items of one producer come out in the order they went in. *)
Fifo == LET all == got \o s.q IN
        \A i, j \in 1..Len(all) : (i < j /\ all[i][1] = all[j][1]) => all[i][2] < all[j][2]
(* A queued item does not stay forever while consumers keep popping. *)
Drained == \A p \in Producers, n \in 0..PerProducer-1 : (Item(p, n) \in ToSet(s.q)) ~> (Item(p, n) \notin ToSet(s.q))
=============================================================================
