------------------------------ MODULE Workload -------------------------------
(* The open-loop engine: a maker starts requests, every request sends one stat  *)
(* through a channel of capacity Cap to a collector, and the main routine stops *)
(* the maker, waits for the requests, closes the channel and waits for the      *)
(* collector. Requests start without waiting for others to finish.              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Reqs, Cap
VARIABLES main, maker, req, chan, open, stats, slow

vars == <<main, maker, req, chan, open, stats, slow>>
Init == /\ main = "sleeps" /\ maker = "ticks" /\ req = [r \in Reqs |-> "no"] /\ chan = << >> /\ open = TRUE /\ stats = << >>
        /\ slow \in SUBSET Reqs   \* these finish only after the maker was stopped
Launch(r) == maker = "ticks" /\ req[r] = "no" /\ req' = [req EXCEPT ![r] = "runs"] /\ UNCHANGED <<main, maker, chan, open, stats, slow>>
Answer(r) == /\ req[r] = "runs" /\ (r \in slow => maker = "stopped") /\ req' = [req EXCEPT ![r] = "sends"]
             /\ UNCHANGED <<main, maker, chan, open, stats, slow>>
Send(r)   == /\ req[r] = "sends" /\ Len(chan) < Cap /\ req' = [req EXCEPT ![r] = "done"] /\ chan' = Append(chan, r)
             /\ UNCHANGED <<main, maker, open, stats, slow>>
Collect   == chan # << >> /\ stats' = Append(stats, Head(chan)) /\ chan' = Tail(chan) /\ UNCHANGED <<main, maker, req, open, slow>>
Stop      == main = "sleeps" /\ main' = "waits" /\ maker' = "stopped" /\ UNCHANGED <<req, chan, open, stats, slow>>
Close     == /\ main = "waits" /\ \A r \in Reqs : req[r] \in {"no", "done"} /\ main' = "closed" /\ open' = FALSE
             /\ UNCHANGED <<maker, req, chan, stats, slow>>
Return    == main = "closed" /\ chan = << >> /\ main' = "returned" /\ UNCHANGED <<maker, req, chan, open, stats, slow>>
Next == Stop \/ Close \/ Return \/ Collect \/ \E r \in Reqs : Launch(r) \/ Answer(r) \/ Send(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Stop) /\ WF_vars(Close) /\ WF_vars(Return) /\ WF_vars(Collect)
             /\ \A r \in Reqs : WF_vars(Answer(r)) /\ WF_vars(Send(r))

Launched == {r \in Reqs : req[r] # "no"}
NoSendOnClosed == ~open => \A r \in Reqs : req[r] \notin {"runs", "sends"}
Complete == main = "returned" => {stats[i] : i \in 1..Len(stats)} = Launched
OnceEach == \A i, j \in 1..Len(stats) : stats[i] = stats[j] => i = j
Comes == <>(main = "returned")
\* nothing starts once the engine was stopped
Quiet == [][maker = "stopped" => \A r \in Reqs : req[r] = "no" => req'[r] = "no"]_vars
\* slow requests do not keep others from starting
OpenLoop == \A r \in Reqs : req[r] = "no" /\ maker = "ticks" => ENABLED Launch(r)
=============================================================================
