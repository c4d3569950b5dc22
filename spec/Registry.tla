------------------------------ MODULE Registry ------------------------------
(* All histories of a registry up to a length; printed as traces to replay.     *)
EXTENDS RegistryOps, Json
CONSTANTS MaxLen, Names
VARIABLES s, ops, outcomes
vars == <<s, ops, outcomes>>
Init == s = RegInit /\ ops = << >> /\ outcomes = {}
Op == {[op |-> "get"]} \cup {[op |-> "default", name |-> n] : n \in Names}
      \cup {[op |-> "register", name |-> n, fails |-> f, key |-> Len(ops) + 1] : n \in Names, f \in BOOLEAN}
Next == /\ Len(ops) < MaxLen
        /\ \E op \in Op : \E r \in RegSteps(s, 1, op) :
             /\ s' = r.st /\ ops' = Append(ops, op)
             /\ outcomes' = IF op.op = "get" THEN outcomes \cup {<<r.res.inst, r.res.err>>} ELSE outcomes
Spec == Init /\ [][Next]_vars
OneOutcome == \A a, b \in outcomes : a = b
BuiltOnce == s.builds <= 1
Emit == Len(ops) = MaxLen => PrintT("OPS " \o ToJson(ops))
=============================================================================
