----------------------------- MODULE Placement -----------------------------
(* Where the instances of an application are, and what every namespace       *)
(* (process, container, deployment, pod, pool of clients) takes as arguments.*)
(* A program says what is a member of what; services and backends have needs *)
(* of their own: the addresses that they bind and those that they dial. An   *)
(* address is of the application, so it has to be handed down through every  *)
(* namespace around those who need it, and through no other.                 *)
EXTENDS Naturals, Sequences, FiniteSets

In(members, x) == LET ns == {n \in DOMAIN members : \E i \in 1..Len(members[n]) : members[n][i] = x} IN
                  IF ns = {} THEN "" ELSE CHOOSE n \in ns : TRUE
Elements(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Needs(_, _)
Needs(p, x) == IF x \in DOMAIN p.members THEN UNION {Needs(p, m) : m \in Elements(p.members[x])}
               ELSE Elements(p.own[x])

Items(p) == DOMAIN p.own \cup DOMAIN p.members

\* nodes: what the compiler made of it, a sequence of [n, in, path, ns, args]
Once(p, nodes) == \A x \in Items(p) : LET at == {i \in DOMAIN nodes : nodes[i].n = x} IN
                                      Cardinality(at) = 1 /\ \A i \in at : nodes[i].in = In(p.members, x)
NoTwins(nodes) == \A i, j \in DOMAIN nodes : i # j => <<nodes[i].n, nodes[i].path>> # <<nodes[j].n, nodes[j].path>>
Takes(node, needs) == Elements(node.args) = needs /\ Len(node.args) = Cardinality(needs)
Given(p, nodes) == \A i \in DOMAIN nodes : nodes[i].n \in DOMAIN p.members => nodes[i].ns /\ Takes(nodes[i], Needs(p, nodes[i].n))
\* a process has a pool of clients for each service that it calls through one, and no other namespaces
Pooled(p, nodes) == \A x \in DOMAIN p.pools :
  LET inner == {i \in DOMAIN nodes : nodes[i].in = x /\ nodes[i].ns} IN
  /\ Cardinality(inner) = Len(p.pools[x])
  /\ \A a \in Elements(p.pools[x]) : \E i \in inner : Takes(nodes[i], {<<"dial", a>>})

Right(p, nodes) == Once(p, nodes) /\ NoTwins(nodes) /\ Given(p, nodes) /\ Pooled(p, nodes)
=============================================================================
