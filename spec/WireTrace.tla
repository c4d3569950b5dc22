----------------------------- MODULE WireTrace -----------------------------
(* Recorded definitions of wiring specs and the IRs built from them.            *)
EXTENDS LinTrace, Wire

TInit(ev) == EmptyW
Res(ok) == [ok |-> ok]
Only(W) == {[st |-> W, res |-> Res(TRUE)]}
If(W, b) == IF b THEN Only(W) ELSE {}

Explains(W, S, got) ==
  LET ns == Nodes(W, S) IN
  IF ~got.ok THEN ~S.ok
  ELSE IF S.ok /\ Ambiguous(W, S) THEN TRUE
  ELSE /\ S.ok
       \* every node is there once, where it belongs, with the arguments it asked for
       /\ Len(got.nodes) = Cardinality(ns)
       /\ \A i \in 1..Len(got.nodes) :
            LET g == got.nodes[i] b == [at |-> g.at, name |-> g.name] IN
            /\ b \in ns
            /\ b.name \in DOMAIN W.defs =>
                 (/\ W.defs[b.name].kind \in {"node", "ns", "client", "server"} => g.deps = Args(W, b)
                  /\ W.defs[b.name].kind = "node" => g.reads = Read(W, b))
       \* and is passed once to every namespace between it and those who use it
       /\ Len(got.edges) = Cardinality(Edges(W, S))
       /\ WRange(got.edges) = Edges(W, S)
       /\ \A i \in 1..Len(got.bound) : got.bound[i].server \in Bound(W, S.R, got.bound[i].addr)
       /\ {got.bound[i].addr : i \in 1..Len(got.bound)} =
            {a \in ns \ PutNodes(W, S) : W.defs[a.name].kind = "addr" /\ Bound(W, S.R, a) # {}}

TSteps(W, t, op) ==
  CASE op.op = "define" -> Only(Define(W, op.name, [Plain("node", op.type) EXCEPT !.deps = op.deps, !.fails = op.fails, !.reads = op.reads]))
    [] op.op = "ns"     -> Only(Define(W, op.name, [Plain("ns", op.type) EXCEPT !.accepts = WRange(op.accepts)]))
    [] op.op = "alias"  -> Only(Alias(W, op.name, op.to))
    [] op.op = "ptr"    -> Only(Pointer(W, op.name, op.to, op.type, op.uniq))
    [] op.op = "src"    -> Only(Define(SrcMod(W, op.ptr, op.name), op.name,
                                  [Plain("node", op.type) EXCEPT !.deps = <<[n |-> SrcNext(op.name), how |-> "get"]>> \o op.deps]))
    [] op.op = "dst"    -> Only(Define(DstMod(W, op.ptr, op.name, op.iface), op.name,
                                  [Plain("node", op.type) EXCEPT !.deps = <<[n |-> Head(W.ptrs[op.ptr].dst), how |-> "get"]>> \o op.deps]))
    [] op.op = "rpc"    -> Only(Rpc(W, op.ptr, op.name, op.ctype, op.stype, op.reach))
    [] op.op = "child"  -> Only(Child(W, op.ns, op.name, op.type))
    [] op.op = "unique" -> Only(Unique(W, op.name, op.type))
    [] op.op = "error"  -> Only([W EXCEPT !.err = TRUE])
    [] op.op = "set"    -> Only(SetProp(W, op.name, op.key, <<op.val>>))
    [] op.op = "add"    -> Only(AddProp(W, op.name, op.key, op.val))
    [] op.op = "prop"   -> LET n == PropName(W, op.name) vs == Prop(W, n, op.key) IN
         If(W, /\ op.got.all = vs
               /\ op.got.one = IF Len(vs) = 1 THEN vs[1] ELSE "")
    [] op.op = "names"  -> If(W, /\ WRange(op.got.defs) = DOMAIN W.defs /\ Len(op.got.defs) = Cardinality(DOMAIN W.defs)
                                 /\ \A i \in 1..Len(op.got.of) : DefOf(W, op.got.of[i].n) = op.got.of[i].def
                                 /\ op.got.err = W.err)
    [] op.op = "build"  -> LET names == IF op.names = << >> THEN DOMAIN W.defs ELSE WRange(op.names)
             L == Linked(W) IN
         If(W, \E S \in Outcomes(L, names) : Explains(L, S, op.got))
TEnv(s, ev) == {}
=============================================================================
