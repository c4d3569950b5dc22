----------------------------- MODULE NetQueueOps ----------------------------
(* Queues kept by a broker (the rabbitmq plugin). Clients push and pop; what a  *)
(* client pushes is under way to the broker when its push returns, so that      *)
(* items of one client keep their order but items of different clients need     *)
(* not. A client takes items from the broker as they come and gives them to its *)
(* pops, so that items of one client come out of any one popping client in      *)
(* their order. A state is                                                      *)
(*   [q    |-> queue, pushing client -> its items that nobody popped yet,       *)
(*    last |-> queue, pushing, popping client -> number of the last item popped,*)
(*    sent |-> queue, pushing client -> how many it pushed,                     *)
(*    canc |-> threads whose call is cancelled, down |-> has the broker gone?]  *)
EXTENDS Naturals, Sequences, TLC

NetQInit == [q |-> << >>, last |-> << >>, sent |-> << >>, canc |-> {}, down |-> FALSE]
At(f, k, none) == IF k \in DOMAIN f THEN f[k] ELSE none

Res(ok, v, err) == [ok |-> ok, v |-> v, err |-> err]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

NetQSteps(s, t, op) ==
  (IF t \in s.canc THEN {[st |-> s, res |-> Res(FALSE, "", FALSE)]} ELSE {})
  \cup (IF s.down THEN {[st |-> s, res |-> Res(FALSE, "", TRUE)]} ELSE {})
  \cup
  CASE op.op = "push" ->
         LET k == <<op.q, op.c>>
             n == At(s.sent, k, 0) + 1
         IN {[st |-> [s EXCEPT !.q = (k :> Append(At(@, k, << >>), [i |-> n, v |-> op.v])) @@ @,
                               !.sent = (k :> n) @@ @],
              res |-> Res(TRUE, "", FALSE)]}
    [] op.op = "pop" ->
         UNION {{LET it == s.q[k][j]
                     o  == <<k[1], k[2], op.c>>
                 IN [st |-> [s EXCEPT !.q = (k :> Drop(@[k], j)) @@ @, !.last = (o :> it.i) @@ @],
                     res |-> Res(TRUE, it.v, FALSE)]
                 : j \in {j \in 1..Len(s.q[k]) : s.q[k][j].i > At(s.last, <<k[1], k[2], op.c>>, 0)}}
                : k \in {k \in DOMAIN s.q : k[1] = op.q}}

NetQCancel(s, t) == [s EXCEPT !.canc = @ \cup {t}]
NetQDown(s) == [s EXCEPT !.down = TRUE]
\* everything that was pushed has been popped
Empty(s) == \A k \in DOMAIN s.q : s.q[k] = << >>
=============================================================================
