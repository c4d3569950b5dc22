------------------------------- MODULE NsLife --------------------------------
(* Every behaviour of a few namespaces and runnables: cancellation reaches all  *)
(* that is below, and whoever awaits a namespace that was shut down comes back  *)
(* if the runnables heed their contexts.                                        *)
EXTENDS NsLifeOps

CONSTANTS MaxNs, Runnables
VARIABLES s, wait   \* wait: namespaces being awaited

Init == s = Make(Empty, 0) /\ wait = {}
Build  == Len(s.ns) < MaxNs /\ \E p \in 1..Len(s.ns) : s' = Make(s, p) /\ UNCHANGED wait
GetRun == \E r \in Runnables \ DOMAIN s.run, n \in 1..Len(s.ns) : s' = Start(s, n, r) /\ UNCHANGED wait
Stop   == \E n \in 1..Len(s.ns) : ~s.ns[n].cancelled /\ s' = Cancel(s, n) /\ UNCHANGED wait
Leave(r) == r \in DOMAIN s.run /\ ~s.run[r].done /\ s' = Exit(s, r, FALSE) /\ UNCHANGED wait
Break(r) == r \in DOMAIN s.run /\ ~s.run[r].done /\ s' = Exit(s, r, TRUE) /\ UNCHANGED wait
Heed(r)  == r \in Cancelled(s) /\ Leave(r)
Await(n) == n \in 1..Len(s.ns) /\ n \notin wait /\ wait' = wait \cup {n} /\ UNCHANGED s
Return(n) == n \in wait /\ Active(s, n) = {} /\ wait' = wait \ {n} /\ UNCHANGED s
Next == \/ Build \/ GetRun \/ Stop
        \/ \E r \in Runnables : Leave(r) \/ Break(r)
        \/ \E n \in 1..MaxNs : Await(n) \/ Return(n)
Spec == Init /\ [][Next]_<<s, wait>> /\ \A r \in Runnables : WF_<<s, wait>>(Heed(r))
             /\ \A n \in 1..MaxNs : SF_<<s, wait>>(Return(n))

\* whatever is below something cancelled is cancelled
Downwards == \A n \in 1..Len(s.ns) : s.ns[n].parent # 0 /\ s.ns[s.ns[n].parent].cancelled => s.ns[n].cancelled
\* who is awaited from above is awaited
Covers == \A n \in 1..Len(s.ns) : s.ns[n].parent # 0 => Active(s, n) \subseteq Active(s, s.ns[n].parent)
CancelStays == [][\A n \in 1..Len(s.ns) : s.ns[n].cancelled => s'.ns[n].cancelled]_<<s, wait>>
ComesBack == \A n \in 1..MaxNs : (n \in wait /\ n <= Len(s.ns) /\ s.ns[n].cancelled) ~> (n \notin wait)
=============================================================================
