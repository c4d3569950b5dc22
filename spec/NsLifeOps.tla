------------------------------ MODULE NsLifeOps ------------------------------
(* Lifecycle of namespaces. State: ns, a sequence of [parent, cancelled], and   *)
(* run, a function from runnable to [ns, done].                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [ns |-> << >>, run |-> << >>]

RECURSIVE Under(_, _, _)
\* n is root or below it
Under(s, n, root) == n # 0 /\ (n = root \/ Under(s, s.ns[n].parent, root))

Make(s, parent) == [s EXCEPT !.ns = Append(@, [parent |-> parent, cancelled |-> parent # 0 /\ s.ns[parent].cancelled])]
Start(s, n, r) == [s EXCEPT !.run = (r :> [ns |-> n, done |-> FALSE]) @@ @]
Cancel(s, root) == [s EXCEPT !.ns = [n \in 1..Len(@) |-> IF Under(s, n, root) THEN [@[n] EXCEPT !.cancelled = TRUE] ELSE @[n]]]
CancelAll(s) == [s EXCEPT !.ns = [n \in 1..Len(@) |-> [@[n] EXCEPT !.cancelled = TRUE]]]
Exit(s, r, failed) == LET s1 == [s EXCEPT !.run[r].done = TRUE] IN IF failed THEN Cancel(s1, s.run[r].ns) ELSE s1
Active(s, root) == {r \in DOMAIN s.run : ~s.run[r].done /\ Under(s, s.run[r].ns, root)}
Cancelled(s) == {r \in DOMAIN s.run : s.ns[s.run[r].ns].cancelled}
=============================================================================
