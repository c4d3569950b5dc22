--------------------------- MODULE VectorClockTrace --------------------------
(* The merged logs of the processes of an application whose services log vector *)
(* clocks. Events [proc, kind, clock] of kind local, call and serve (a request  *)
(* is sent, is received), reply and back (a response is), and note: something   *)
(* that the driver wrote to the log, which is what is known of the calls:       *)
(* b(efore) and a(fter) call c, e(nter) and (e)x(it) of invocation n of call c, *)
(* which is the i-th call made in invocation pn of call parent (par: at the     *)
(* same time as the others). total: how many events of which kind there are,     *)
(* every invocation being sent, received, answered, and the answer received.    *)
(* end: nothing runs any more.                                                  *)
EXTENDS LinTrace, VectorClock

TInit(ev) == [clock |-> << >>, msgs |-> << >>, notes |-> {}]
Clk(s, p) == IF p \in DOMAIN s.clock THEN s.clock[p] ELSE << >>
SetClk(s, p, v) == [s EXCEPT !.clock = (p :> v) @@ @]
TSteps(s, t, op) == {}

\* m happened before the note e
Before(m, e) ==
  \/ e.what = "b" /\ m.what = "e" /\ m.c = e.parent /\ m.n = e.pn
  \/ e.what = "b" /\ m.what = "a" /\ e.parent # "" /\ m.parent = e.parent /\ m.pn = e.pn /\ m.i < e.i /\ ~e.par
  \/ e.what = "e" /\ m.what = "b" /\ m.c = e.c
  \/ e.what = "e" /\ m.what = "x" /\ m.c = e.c /\ m.n < e.n
  \/ e.what = "x" /\ m.what = "e" /\ m.c = e.c /\ m.n = e.n
  \/ e.what = "x" /\ m.what = "a" /\ m.parent = e.c /\ m.pn = e.n
  \/ e.what = "a" /\ m.what = "x" /\ m.c = e.c
\* what must have been noted before
Due(s, e) ==
  CASE e.what = "b" -> e.parent = "" \/ \E m \in s.notes : m.what = "e" /\ m.c = e.parent /\ m.n = e.pn
    [] e.what = "e" -> \E m \in s.notes : m.what = "b" /\ m.c = e.c
    [] e.what = "x" -> \E m \in s.notes : m.what = "e" /\ m.c = e.c /\ m.n = e.n
    [] e.what = "a" -> \E m \in s.notes : m.what = "x" /\ m.c = e.c

TEnv(s, ev) ==
  CASE ev.kind = "local" -> IF ev.clock = Tick(Clk(s, ev.proc), ev.proc) THEN {SetClk(s, ev.proc, ev.clock)} ELSE {}
    [] ev.kind = "note" ->
         IF /\ ev.clock = Tick(Clk(s, ev.proc), ev.proc) /\ Due(s, ev)
            /\ \A m \in s.notes : Before(m, ev) => Less(m.clock, ev.clock)
         THEN {SetClk([s EXCEPT !.notes = @ \cup {ev}], ev.proc, ev.clock)} ELSE {}
    [] ev.kind \in {"call", "reply"} ->
         IF ev.clock = Tick(Clk(s, ev.proc), ev.proc)
         THEN {SetClk([s EXCEPT !.msgs = (ev.clock :> ev.kind) @@ @], ev.proc, ev.clock)}
         ELSE {}
    [] ev.kind \in {"serve", "back"} ->
         {SetClk([s EXCEPT !.msgs = [x \in DOMAIN @ \ {c} |-> @[x]]], ev.proc, ev.clock) :
            c \in {x \in DOMAIN s.msgs : /\ s.msgs[x] = (IF ev.kind = "serve" THEN "call" ELSE "reply")
                                         /\ ev.clock = Max(Tick(Clk(s, ev.proc), ev.proc), x)}}
    [] ev.kind = "total" -> IF \A x \in DOMAIN ev.n : ev.n[x] = ev.n["e"] THEN {s} ELSE {}
    [] ev.kind = "end" -> IF DOMAIN s.msgs = {} THEN {s} ELSE {}
=============================================================================
