-------------------------------- MODULE Cache -------------------------------
(* Threads over the cache: each thread increments, sets two keys, reads.        *)
EXTENDS CacheOps, FiniteSets
CONSTANTS Threads, Incs
VARIABLES m, left, seen

vars == <<m, left, seen>>
Init == m = CacheInit /\ left = [t \in Threads |-> Incs] /\ seen = [t \in Threads |-> << >>]

Incr(t) == /\ left[t] > 0
           /\ \E r \in CacheSteps(m, t, [op |-> "incr", k |-> "c"]) :
                /\ m' = r.st
                /\ seen' = [seen EXCEPT ![t] = Append(@, r.res.v.n)]
           /\ left' = [left EXCEPT ![t] = @ - 1]
Other(t) == \E op \in {[op |-> "put", k |-> "a", v |-> I64(1)], [op |-> "del", k |-> "a"], [op |-> "incr", k |-> "a"],
                       [op |-> "put", k |-> "a", v |-> [k |-> "string", n |-> 0, s |-> "x"]]} :
              \E r \in CacheSteps(m, t, op) : /\ Has(r.st, "a") => r.st["a"].n < 3
                                              /\ m' = r.st
                                              /\ UNCHANGED <<left, seen>>
Next == \E t \in Threads : Incr(t) \/ Other(t)
Spec == Init /\ [][Next]_vars

Total == [t \in Threads |-> Incs - left[t]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
NoLostIncrement == (IF Has(m, "c") THEN m["c"].n ELSE 0) = Sum(Total, Threads)
DistinctResults == \A t, u \in Threads : \A i \in 1..Len(seen[t]), j \in 1..Len(seen[u]) :
                      (t # u \/ i # j) => seen[t][i] # seen[u][j]
=============================================================================
