------------------------------ MODULE NetCache ------------------------------
(* Threads over one server, through any number of clients: increments are never *)
(* lost, keys that are set together with others get their values, and what is   *)
(* not touched by anybody stays.                                                *)
EXTENDS NetCacheOps
CONSTANTS Threads, Incs, Store
VARIABLES m, left, seen, pend

vars == <<m, left, seen, pend>>
Op(r) == [store |-> Store, srv |-> "s"] @@ r
Incr1 == Op([op |-> "incr", k |-> "c"])
Sets == {Op([op |-> "mset", ks |-> <<"a", "b">>, vs |-> <<I64(n), I64(n)>>]) : n \in 1..2}
        \cup {Op([op |-> "mset", ks |-> <<"a", "fail">>, vs |-> <<I64(3), I64(3)>>]), Op([op |-> "incr", k |-> "fail"])}

Init == m = PutKey(NetInit, <<"s", "z">>, I64(7)) /\ left = [t \in Threads |-> Incs] /\ seen = {} /\ pend = [t \in Threads |-> << >>]
Incr(t) == /\ left[t] > 0 /\ pend[t] = << >>
           /\ \E r \in NetSteps(m, t, Incr1) : /\ m' = r.st
                                               /\ seen' = seen \cup {r.res.v.n}
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED pend
Go(t, op) == \E r \in NetSteps(m, t, op) :
               /\ m' = r.st
               /\ pend' = [pend EXCEPT ![t] = IF "next" \in DOMAIN r THEN r.next ELSE << >>]
Other(t) == /\ IF pend[t] = << >> THEN \E op \in Sets : Go(t, op) ELSE Go(t, pend[t])
            /\ UNCHANGED <<left, seen>>
Next == \E t \in Threads : Incr(t) \/ Other(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Made == Cardinality(Threads) * Incs - Sum(left, Threads)
NoLostIncrement == (IF Has(m, <<"s", "c">>) THEN m[<<"s", "c">>].n ELSE 0) = Made /\ seen = 1..Made
FailedSetsNothing == ~Has(m, <<"s", "fail">>) /\ (Store = "redis" /\ Has(m, <<"s", "a">>) => m[<<"s", "a">>].n # 3)
Untouched == m[<<"s", "z">>] = I64(7)
=============================================================================
