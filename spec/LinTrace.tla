------------------------------ MODULE LinTrace ------------------------------
(* Validation of recorded concurrent histories against a sequential object     *)
(* specification. A history is a sequence of events in the order in which the  *)
(* driver logged them:                                                          *)
(*   [e |-> "init", ...]                 parameters of the run (first event)    *)
(*   [e |-> "call", t |-> T, op |-> R]   thread T is about to make the call R   *)
(*   [e |-> "ret",  t |-> T, res |-> R]  the call of thread T has returned R    *)
(*   [e |-> "env",  ...]                 something the driver did (a cancel)    *)
(* "call" is logged before the code under test can act and "ret" after it has   *)
(* acted, so the change a call makes to the object lies between the two: it is  *)
(* an internal step of this specification (Linearize). A history is accepted    *)
(* iff some placement of these steps explains every result.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS TraceFile,
          InitState(_),     \* init event -> initial object state
          Steps(_, _, _),   \* state, thread, operation -> set of [st, res]
          EnvSteps(_, _)    \* state, env event -> set of states

VARIABLES tid, l, st, pend

tvars == <<tid, l, st, pend>>

Traces == ndJsonDeserialize(TraceFile)
Hist   == Traces[tid]

TraceInit ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ st = InitState(Traces[tid][1])
  /\ pend = << >>

Ev == Hist[l + 1]
More == l < Len(Hist)

Pending(t) == t \in DOMAIN pend

Call ==
  /\ More /\ Ev.e = "call" /\ ~Pending(Ev.t)
  /\ pend' = (Ev.t :> [op |-> Ev.op, lin |-> FALSE]) @@ pend
  /\ l' = l + 1
  /\ UNCHANGED <<tid, st>>

(* A step whose record has a field "next" leaves the call unfinished: it goes   *)
(* on as the operation given there.                                             *)
Unfinished(r) == "next" \in DOMAIN r

(* Taken only when the next event is the return of a call that has not acted   *)
(* yet: acting can always be postponed to just before some return.             *)
Linearize ==
  /\ More /\ Ev.e = "ret" /\ Pending(Ev.t) /\ ~pend[Ev.t].lin
  /\ \E t \in DOMAIN pend :
       /\ ~pend[t].lin
       /\ \E r \in Steps(st, t, pend[t].op) :
            /\ (t = Ev.t /\ ~Unfinished(r)) => r.res = Ev.res
            /\ st' = r.st
            /\ pend' = [pend EXCEPT ![t] = IF Unfinished(r)
                                             THEN [op |-> r.next, lin |-> FALSE]
                                             ELSE [op |-> @.op, lin |-> TRUE, res |-> r.res]]
  /\ UNCHANGED <<tid, l>>

Return ==
  /\ More /\ Ev.e = "ret" /\ Pending(Ev.t) /\ pend[Ev.t].lin
  /\ pend[Ev.t].res = Ev.res
  /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]]
  /\ l' = l + 1
  /\ UNCHANGED <<tid, st>>

Env ==
  /\ More /\ Ev.e = "env"
  /\ st' \in EnvSteps(st, Ev)
  /\ l' = l + 1
  /\ UNCHANGED <<tid, pend>>

TraceNext == Call \/ Linearize \/ Return \/ Env
TraceSpec == TraceInit /\ [][TraceNext]_tvars

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Reached(i) == TLCGet(i)
(* CONSTRAINT: remembers how far each history was explained. *)
TraceProgress == IF l > Reached(tid) THEN TLCSet(tid, l) ELSE TRUE

(* POSTCONDITION *)
TraceReport == PrintT("TRACE-REPORT " \o ToString([i \in 1..Len(Traces) |-> Reached(i)]))
=============================================================================
