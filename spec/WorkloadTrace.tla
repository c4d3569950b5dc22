---------------------------- MODULE WorkloadTrace ----------------------------
(* One workload: new [shares, duration] makes an engine; run executes it while  *)
(* env req [id, api, ms] and fin [id] say which request functions start and     *)
(* return; its result are the collected stats; print writes them to a file and  *)
(* a summary to the output. A stat is <<id, duration, failed>>.                 *)
EXTENDS LinTrace, Integers

TInit(ev) == [tput |-> ev.tput, ms |-> ev.ms, shares |-> ev.shares, cancelled |-> FALSE,
              phase |-> "new", on |-> << >>, count |-> [i \in 1..Len(ev.shares) |-> 0], n |-> 0, fin |-> {}, stats |-> << >>]
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
Set(q) == {q[i] : i \in 1..Len(q)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* as many calls of an API as its share of all makes likely (tails of about 1 in 10^10, after Bernstein)
Likely(n, c, p) ==
  LET mean == (n * p) \div 100  var == (((n + 99) \div 100) * p * (100 - p)) \div 100 + 1  d == Abs(c - mean) IN
  IF p = 0 THEN c = 0 ELSE IF p = 100 THEN c = n
  ELSE IF c < mean THEN d <= 2 \/ (d - 2) * (d - 2) <= 49 * mean ELSE d <= 18 \/ (d - 18) * (d - 18) <= 49 * var
\* arrivals: gaps of 1/tput on average; at least this many if the machine was not busy with other things
Enough(s, ev) == ev.busy \/ s.cancelled \/ (s.n + 5) * 2000 >= s.tput * s.ms
\* no request earlier than its arrival
Early(s, ev) == (s.n - 10) * 100000 > 115 * (ev.ms + 1) * s.tput

TSteps(s, t, op) ==
  CASE op.op = "new" -> {[st |-> s, res |-> [ok |-> Sum(s.shares) = 100 /\ op.duration]]}
    [] op.op = "ended" -> \* logged with what was collected once the run has come back
         IF /\ IF op.bulk THEN op.n = s.n /\ op.distinct = s.n
               ELSE s.on = << >> /\ Len(op.stats) = s.n /\ Set(op.stats) = s.fin
            /\ (s.cancelled \/ op.ms >= s.ms) /\ Enough(s, op)
            /\ \A i \in 1..Len(s.shares) : Likely(s.n, s.count[i], s.shares[i])
         THEN {[st |-> [s EXCEPT !.phase = "end", !.stats = op.stats], res |-> [ok |-> TRUE]]} ELSE {}
    [] op.op = "print" ->
         LET bad == {i \in 1..Len(s.stats) : s.stats[i][3]} IN
         {[st |-> s, res |-> [ok |-> TRUE, rows |-> s.stats, total |-> Len(s.stats), bad |-> Cardinality(bad), good |-> Len(s.stats) - Cardinality(bad),
                              sum |-> Sum([i \in 1..Len(s.stats) |-> s.stats[i][2]])]]}
TEnv(s, ev) ==
  CASE ev.what = "start" -> IF s.phase = "new" THEN {[s EXCEPT !.phase = "run"]} ELSE {}
    [] ev.what = "cancel" -> {[s EXCEPT !.cancelled = TRUE]}
    \* many requests, counted by API; all of them have returned
    [] ev.what = "bulk" -> {[s EXCEPT !.n = Sum(ev.count), !.count = ev.count]}
    [] ev.what = "req" -> IF s.phase = "run" /\ ev.id = s.n + 1 /\ ~Early(s, ev)
                          THEN {[s EXCEPT !.n = @ + 1, !.count[ev.api] = @ + 1, !.on = (ev.id :> ev.stat) @@ @]} ELSE {}
    [] ev.what = "fin" -> IF ev.id \in DOMAIN s.on
                          THEN {[s EXCEPT !.fin = @ \cup {s.on[ev.id]}, !.on = [i \in DOMAIN @ \ {ev.id} |-> @[i]]]} ELSE {}
=============================================================================
