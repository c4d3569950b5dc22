------------------------------ MODULE CacheOps ------------------------------
(* The key-value cache as the set of things one call may do. A state maps keys *)
(* to values; a value is a string "type:text", a counter is "int64:n" with its *)
(* number kept apart so that it can be incremented.                             *)
EXTENDS Integers, Sequences, TLC

\* values: [k |-> kind, n |-> number, s |-> text]
Nothing == [k |-> "none", n |-> 0, s |-> ""]
I64(n)  == [k |-> "int64", n |-> n, s |-> ""]
Ok(v)   == [found |-> TRUE, v |-> v, err |-> FALSE]
Absent  == [found |-> FALSE, v |-> Nothing, err |-> FALSE]
Done    == [found |-> FALSE, v |-> Nothing, err |-> FALSE]
Failed(found) == [found |-> found, v |-> Nothing, err |-> TRUE]

\* the kinds of variables that can hold a nil
Nilable == {"ppair", "strings"}

CacheInit == << >>
Has(m, k) == k \in DOMAIN m
PutKey(m, k, v) == (k :> v) @@ m
DelKey(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Remember(op, v) == [op EXCEPT !.ks = Tail(@), !.acc = Append(@, v)]

CacheSteps(m, t, op) ==
  CASE op.op = "put"  -> {[st |-> PutKey(m, op.k, op.v), res |-> Done]}
    \* want is the kind of the caller's variable
    [] op.op = "get"  -> {[st |-> m, res |->
                             IF ~Has(m, op.k) THEN Absent
                             ELSE IF op.want \in {m[op.k].k, "any"} \/ (m[op.k].k = "nil" /\ op.want \in Nilable) THEN Ok(m[op.k]) ELSE Failed(TRUE)]}
    [] op.op = "del"  -> {[st |-> DelKey(m, op.k), res |-> Done]}
    [] op.op = "incr" ->
         LET cur == IF Has(m, op.k) THEN m[op.k] ELSE I64(0) IN
         IF cur.k # "int64" THEN {[st |-> m, res |-> Failed(FALSE)]}
         ELSE {[st |-> PutKey(m, op.k, I64(cur.n + 1)), res |-> Ok(I64(cur.n + 1))]}
    \* one key after the other
    [] op.op = "mset" ->
         IF Len(op.ks) # Len(op.vs) THEN {[st |-> m, res |-> Failed(FALSE)]}
         ELSE IF op.ks = << >> THEN {[st |-> m, res |-> Done]}
         ELSE LET m2 == PutKey(m, Head(op.ks), Head(op.vs)) IN
              IF Len(op.ks) = 1 THEN {[st |-> m2, res |-> Done]}
              ELSE {[st |-> m2, next |-> [op EXCEPT !.ks = Tail(@), !.vs = Tail(@)]]}
    \* acc: the values of the caller's variables so far; absent keys leave them alone
    [] op.op = "mget" ->
         IF Len(op.ks) # op.n THEN {[st |-> m, res |-> [err |-> TRUE, vs |-> << >>]]}
         ELSE IF op.ks = << >> THEN {[st |-> m, res |-> [err |-> FALSE, vs |-> op.acc]]}
         ELSE LET v == IF Has(m, Head(op.ks)) THEN m[Head(op.ks)] ELSE Nothing
                  op2 == [Remember(op, v) EXCEPT !.n = @ - 1]
              IN IF op2.ks = << >> THEN {[st |-> m, res |-> [err |-> FALSE, vs |-> op2.acc]]}
                 ELSE {[st |-> m, next |-> op2]}
=============================================================================
