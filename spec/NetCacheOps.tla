----------------------------- MODULE NetCacheOps ----------------------------
(* The caches of the redis and memcached plugins: clients of servers, which    *)
(* keep values as text. A state maps (server, key) to a value; any number of   *)
(* clients use a server. op.store is the kind of server. Every call on the key *)
(* "fail" is one that the server answers with an error, every call on the      *)
(* server "down" one that nobody answers: both must be reported and change     *)
(* nothing.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

V(k, n, s) == [k |-> k, n |-> n, s |-> s]
Nothing == V("none", 0, "")
I64(n)  == V("int64", n, "")
Ok(v)   == [found |-> TRUE, v |-> v, err |-> FALSE]
Done    == [found |-> FALSE, v |-> Nothing, err |-> FALSE]
Failed  == [found |-> FALSE, v |-> Nothing, err |-> TRUE]

NetInit == << >>
Has(m, k) == k \in DOMAIN m
PutKey(m, k, v) == (k :> v) @@ m
DelKey(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

(* What a variable of kind want holds after a stored value was read into it:   *)
(* the caller's variable held Zero(want) before, and null leaves it alone.      *)
Zero(want) == CASE want = "int64" -> I64(0)
                [] want = "string" -> V("string", 0, "")
                [] want = "bool" -> V("bool", 0, "false")
                [] want = "pair" -> V("pair", 0, "")
                [] OTHER -> V("nil", 0, "")
Fits(v, want) == \/ want = "any"
                 \/ v.k \in {want, "nil"}
                 \/ want = "ppair" /\ v.k = "pair"
                 \/ want = "int64" /\ v.k = "big"
Read(v, want) == IF v.k = "nil" THEN Zero(want) ELSE v

\* keys no memcached server takes
Illegal(op, k) == k = "fail" \/ op.srv = "down" \/ (op.store = "memcached" /\ k \in {"a b", ""})
Key(op, k) == <<op.srv, k>>
\* memcached counts without sign
Countable(op, v) == v.k = "int64" /\ (op.store = "redis" \/ v.n >= 0)

Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Todo(op) == IF "todo" \in DOMAIN op THEN op.todo ELSE {}

NetSteps(m, t, op) ==
  CASE op.op = "put" ->
         IF Illegal(op, op.k) THEN {[st |-> m, res |-> Failed]}
         ELSE {[st |-> PutKey(m, Key(op, op.k), op.v), res |-> Done]}
    [] op.op = "get" ->
         IF Illegal(op, op.k) THEN {[st |-> m, res |-> Failed]}
         ELSE IF ~Has(m, Key(op, op.k)) THEN {[st |-> m, res |-> Done]}
         ELSE LET v == m[Key(op, op.k)] IN
              {[st |-> m, res |-> IF Fits(v, op.want) THEN Ok(Read(v, op.want))
                                  ELSE [found |-> TRUE, v |-> Nothing, err |-> TRUE]]}
    [] op.op = "del" ->
         IF Illegal(op, op.k) THEN {[st |-> m, res |-> Failed]}
         ELSE {[st |-> DelKey(m, Key(op, op.k)), res |-> Done]}
    [] op.op = "incr" ->
         LET cur == IF Has(m, Key(op, op.k)) THEN m[Key(op, op.k)] ELSE I64(0) IN
         IF Illegal(op, op.k) \/ ~Countable(op, cur) THEN {[st |-> m, res |-> Failed]}
         ELSE {[st |-> PutKey(m, Key(op, op.k), I64(cur.n + 1)), res |-> Ok(I64(cur.n + 1))]}
    \* todo: what is still to be set. redis takes all of them or none and the last of equal keys
    \* wins; memcached gets one after another, in any order
    [] op.op = "mset" /\ "todo" \notin DOMAIN op ->
         LET n == Len(op.ks)
             bad == \E i \in 1..n : Illegal(op, op.ks[i])
             all == [i \in 1..n |-> <<op.ks[i], op.vs[i]>>]
         IN IF n # Len(op.vs) \/ (op.store = "redis" /\ bad) THEN {[st |-> m, res |-> Failed]}
            ELSE IF n = 0 THEN {[st |-> m, res |-> Done]}
            ELSE IF op.store = "redis"
              THEN {[st |-> m, next |-> [op |-> "msets", store |-> op.store, srv |-> op.srv, todo |-> all]]}
              ELSE {[st |-> m, next |-> [op |-> "msetp", store |-> op.store, srv |-> op.srv, bad |-> bad,
                                         todo |-> [i \in {i \in 1..n : ~Illegal(op, op.ks[i])} |-> all[i]]]]}
    [] op.op = "msets" ->
         LET p == Head(op.todo)
             m2 == PutKey(m, Key(op, p[1]), p[2])
         IN IF Len(op.todo) = 1 THEN {[st |-> m2, res |-> Done]}
            ELSE {[st |-> m2, next |-> [op EXCEPT !.todo = Tail(@)]]}
    [] op.op = "msetp" ->
         IF DOMAIN op.todo = {} THEN {[st |-> m, res |-> IF op.bad THEN Failed ELSE Done]}
         ELSE {[st |-> PutKey(m, Key(op, op.todo[i][1]), op.todo[i][2]),
                next |-> [op EXCEPT !.todo = Without(@, i)]] : i \in DOMAIN op.todo}
    \* acc: the values of the caller's variables so far; absent keys leave them alone
    [] op.op = "mget" ->
         IF Len(op.ks) # op.n \/ \E i \in 1..Len(op.ks) : Illegal(op, op.ks[i])
           THEN {[st |-> m, res |-> [err |-> TRUE, vs |-> << >>]]}
         ELSE IF op.n = 0 THEN {[st |-> m, res |-> [err |-> FALSE, vs |-> << >>]]}
         ELSE {[st |-> m, next |-> [op |-> "mgets", store |-> op.store, srv |-> op.srv, ks |-> op.ks,
                                    wants |-> op.wants, left |-> 1..op.n, acc |-> [i \in 1..op.n |-> Nothing]]]}
    [] op.op = "mgets" ->
         {LET v == IF Has(m, Key(op, op.ks[i])) THEN m[Key(op, op.ks[i])] ELSE Nothing
              acc == [op.acc EXCEPT ![i] = IF v.k = "nil" /\ op.wants[i] # "any" THEN Nothing ELSE v]
          IN IF v.k # "none" /\ ~Fits(v, op.wants[i]) THEN [st |-> m, res |-> [err |-> TRUE, vs |-> << >>]]
             ELSE IF op.left = {i} THEN [st |-> m, res |-> [err |-> FALSE, vs |-> acc]]
             ELSE [st |-> m, next |-> [op EXCEPT !.left = @ \ {i}, !.acc = acc]] : i \in op.left}
=============================================================================
