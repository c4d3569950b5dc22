----------------------------- MODULE RegistryOps ----------------------------
(* A service registry: constructors by name, a default, and one cached outcome. *)
EXTENDS Integers, Sequences, TLC
\* partial: constructors that fail return an instance as well
RegInit == [partial |-> FALSE, reg |-> << >>, dflt |-> "", built |-> FALSE, inst |-> 0, err |-> 0, builds |-> 0]
Quiet == [inst |-> 0, err |-> 0, builds |-> 0]
Outcome(s) == [inst |-> s.inst, err |-> s.err, builds |-> s.builds]
\* err -1: an error of the registry; err k: the error of constructor k
RegBuild(s) ==
  IF s.built THEN s
  ELSE IF DOMAIN s.reg = {} \/ s.dflt \notin DOMAIN s.reg THEN [s EXCEPT !.built = TRUE, !.err = -1]
  ELSE LET c == s.reg[s.dflt] IN
       [s EXCEPT !.built = TRUE, !.builds = 1, !.inst = IF c.fails /\ ~s.partial THEN 0 ELSE c.key, !.err = IF c.fails THEN c.key ELSE 0]
RegSteps(s, t, op) ==
  CASE op.op = "register" ->
         {[st |-> [s EXCEPT !.dflt = IF DOMAIN s.reg = {} /\ @ = "" THEN op.name ELSE @,
                            !.reg = (op.name :> [fails |-> op.fails, key |-> op.key]) @@ @], res |-> Quiet]}
    [] op.op = "default" -> {[st |-> [s EXCEPT !.dflt = op.name], res |-> Quiet]}
    [] op.op = "get" -> LET s2 == RegBuild(s) IN {[st |-> s2, res |-> Outcome(s2)]}
=============================================================================
