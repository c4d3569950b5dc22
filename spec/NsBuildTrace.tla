---------------------------- MODULE NsBuildTrace ----------------------------
(* Recorded uses of namespaces. An operation is                                 *)
(*   [op |-> "build", b, parent, slot]  makes a namespace; parent and slot are  *)
(*                                      the driver's names of namespaces        *)
(*   [op |-> "get", slot, name, as]     gets a node into a variable that takes  *)
(*                                      any node or ("string") strings only     *)
(*   [op |-> "counts"]                  how often every constructor ran         *)
(* got.log: what the constructors saw during the call (if only one thread runs) *)
EXTENDS LinTrace, NsBuild

TInit(ev) == [C |-> ev.case, S |-> Empty, slots |-> << >>]
LogOk(op, before, after) ==
  ~op.logged \/ op.log = SubSeq(after.log, Len(before.log) + 1, Len(after.log))
Out(s, op, S2, slots, res) ==
  IF LogOk(op, s.S, S2) THEN {[st |-> [s EXCEPT !.S = S2, !.slots = slots], res |-> res]} ELSE {}

IsString(S, v) == \A i \in 1..Len(S.log) : S.log[i].at \o "#" \o ToString(S.log[i].k) # v

TSteps(s, t, op) ==
  \* a namespace that was not made cannot be used
  CASE \/ op.op = "get" /\ op.slot \notin DOMAIN s.slots
       \/ op.op = "build" /\ op.parent # "" /\ op.parent \notin DOMAIN s.slots ->
         {[st |-> s, res |-> [ok |-> FALSE, v |-> "no namespace"]]}
    [] op.op = "build" ->
         LET p == IF op.parent = "" THEN 0 ELSE s.slots[op.parent]
             r == NewNs(s.C, s.S, op.b, p) IN
         Out(s, op, r.S, IF r.ok THEN (op.slot :> r.v) @@ s.slots ELSE s.slots, [ok |-> r.ok, v |-> ""])
    [] op.op = "get" ->
         LET r == Get(s.C, s.S, s.slots[op.slot], op.name)
             ok == r.ok /\ (op.as # "string" \/ IsString(r.S, r.v)) IN
         Out(s, op, r.S, s.slots, [ok |-> ok, v |-> IF ok THEN r.v ELSE ""])
    [] op.op = "counts" ->
         LET c == op.counts IN
         IF /\ \A i \in 1..Len(c) : Tries(s.S, <<c[i].b, c[i].name>>) = c[i].n
            /\ Cardinality(DOMAIN s.S.tries) = Len(c)
         THEN {[st |-> s, res |-> [ok |-> TRUE, v |-> ""]]} ELSE {}
TEnv(s, ev) == {}
=============================================================================
