----------------------------- MODULE NsLifeTrace -----------------------------
(* Operations: build [parent, slot, runs, fails] makes a namespace that starts  *)
(* the runnables runs and then, if fails, cannot be completed; get [slot, home, *)
(* run] starts one more, defined in namespace home, which is slot or above it   *)
(* (again: it was there already); shutdown [slot, await]; await [slot]; ctx: the*)
(* context of the process is cancelled; interrupt; snap [runs, ns]: whose       *)
(* contexts are cancelled; starts [n]: how often every runnable was run; join:  *)
(* a call that waits has come back.                                             *)
(* env exit: a runnable is about to return, with an error or not.               *)
EXTENDS LinTrace, NsLifeOps

TInit(ev) == [S |-> Empty, slots |-> << >>]
To(s, S2) == {[st |-> [s EXCEPT !.S = S2], res |-> [ok |-> TRUE]]}
RECURSIVE StartAll(_, _, _)
StartAll(S, n, rs) == IF rs = << >> THEN S ELSE StartAll(Start(S, n, Head(rs)), n, Tail(rs))
Set(q) == {q[i] : i \in 1..Len(q)}

Wait(s, slot) == IF Active(s.S, s.slots[slot]) = {} THEN To(s, s.S) ELSE {}
TSteps(s, t, op) ==
  CASE op.op = "build" ->
         LET S1 == Make(s.S, IF op.parent = "" THEN 0 ELSE s.slots[op.parent])
             n == Len(S1.ns)
             S2 == StartAll(S1, n, op.runs) IN
         IF op.fails THEN {[st |-> [s EXCEPT !.S = Cancel(S2, n)], res |-> [ok |-> FALSE]]}
         ELSE {[st |-> [s EXCEPT !.S = S2, !.slots = (op.slot :> n) @@ @], res |-> [ok |-> TRUE]]}
    [] op.op = "get" -> To(s, IF op.run = "" \/ op.run \in DOMAIN s.S.run THEN s.S ELSE Start(s.S, s.slots[op.home], op.run))
    [] op.op = "shutdown" ->
         LET S2 == Cancel(s.S, s.slots[op.slot]) IN
         IF op.await THEN {[st |-> [s EXCEPT !.S = S2], next |-> [op |-> "await", slot |-> op.slot]]} ELSE To(s, S2)
    [] op.op = "await" -> Wait(s, op.slot)
    [] op.op \in {"ctx", "interrupt"} -> To(s, CancelAll(s.S))
    [] op.op = "snap" -> IF /\ Set(op.runs) = Cancelled(s.S)
                            /\ Set(op.ns) = {x \in DOMAIN s.slots : s.S.ns[s.slots[x]].cancelled}
                         THEN To(s, s.S) ELSE {}
    [] op.op = "starts" -> IF /\ \A i \in 1..Len(op.n) : op.n[i].n = 1
                              /\ {op.n[i].run : i \in 1..Len(op.n)} = DOMAIN s.S.run
                           THEN To(s, s.S) ELSE {}
    [] op.op \in {"finish", "join"} -> To(s, s.S)
TEnv(s, ev) == IF ev.what = "exit" /\ ev.run \in DOMAIN s.S.run /\ ~s.S.run[ev.run].done
               THEN {[s EXCEPT !.S = Exit(@, ev.run, ev.failed)]} ELSE {}
=============================================================================
