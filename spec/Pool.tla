-------------------------------- MODULE Pool --------------------------------
(* Callers of the pool, each in a loop of Pop, use, Push. A construction takes  *)
(* its capacity before it starts and gives it back when it fails.               *)
EXTENDS PoolOps, TLC
CONSTANTS Callers, Cap, MaxFail, MaxIds
VARIABLES s, pc, mine, nextid, fails

vars == <<s, pc, mine, nextid, fails>>
Init == /\ s = PoolInit(Cap, FALSE)
        /\ pc = [c \in Callers |-> "out"]
        /\ mine = [c \in Callers |-> 0]
        /\ nextid = 1 /\ fails = 0

Set(c, p) == pc' = [pc EXCEPT ![c] = p]
Ask(c)   == pc[c] = "out" /\ Set(c, "wait") /\ UNCHANGED <<s, mine, nextid, fails>>
Take(c)  == /\ pc[c] = "wait"
            /\ \E x \in s.idle : /\ s' = [s EXCEPT !.idle = @ \ {x}, !.held = @ \cup {x}]
                                 /\ mine' = [mine EXCEPT ![c] = x]
            /\ Set(c, "in") /\ UNCHANGED <<nextid, fails>>
Build(c) == /\ pc[c] = "wait" /\ s.idle = {}
            /\ PoolEnv(s, [what |-> "build"]) # {}
            /\ s' \in PoolEnv(s, [what |-> "build"])
            /\ Set(c, "build") /\ UNCHANGED <<mine, nextid, fails>>
Built(c) == /\ pc[c] = "build" /\ nextid <= MaxIds
            /\ s' = [s EXCEPT !.building = @ - 1, !.held = @ \cup {nextid}]
            /\ mine' = [mine EXCEPT ![c] = nextid]
            /\ nextid' = nextid + 1 /\ Set(c, "in") /\ UNCHANGED fails
Fail(c)  == /\ pc[c] = "build" /\ fails < MaxFail
            /\ s' = [s EXCEPT !.building = @ - 1]
            /\ fails' = fails + 1 /\ Set(c, "out") /\ UNCHANGED <<mine, nextid>>
Push(c)  == /\ pc[c] = "in"
            /\ \E r \in PoolSteps(s, c, [op |-> "push", c |-> mine[c]]) : s' = r.st
            /\ mine' = [mine EXCEPT ![c] = 0] /\ Set(c, "out") /\ UNCHANGED <<nextid, fails>>
GiveUp(c) == pc[c] = "wait" /\ Set(c, "out") /\ UNCHANGED <<s, mine, nextid, fails>>

Step(c) == Take(c) \/ Build(c) \/ Built(c) \/ Fail(c) \/ Push(c)
Next == \E c \in Callers : Ask(c) \/ Step(c) \/ GiveUp(c)
\* a returned client or freed capacity reaches some waiting caller, and callers return clients
Fairness == \A c \in Callers : WF_vars(Built(c) \/ Fail(c)) /\ WF_vars(Push(c)) /\ SF_vars(Take(c) \/ Build(c))
Spec == Init /\ [][Next]_vars /\ Fairness

BoundedClients == Cardinality(Alive(s)) + s.building <= Cap
Exclusive == \A c, d \in Callers : (c # d /\ mine[c] # 0) => mine[c] # mine[d]
HeldByCallers == s.held = {mine[c] : c \in Callers} \ {0}
\* a caller waits only while all capacity is in use
NoIdleWait == \A c \in Callers : pc[c] = "wait" /\ ~ENABLED Take(c) /\ ~ENABLED Build(c) => Cardinality(s.held) + s.building = Cap
Served == \A c \in Callers : pc[c] = "wait" ~> pc[c] # "wait"
=============================================================================
