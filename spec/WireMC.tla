------------------------------- MODULE WireMC -------------------------------
(* Every wiring spec that can be put together from a catalogue of definitions,  *)
(* each used once at most: two services, one of which uses the other, with      *)
(* modifiers and RPC on either, processes and a container to deploy them to.    *)
EXTENDS Wire
CONSTANTS MaxOps, Catalogue

VARIABLES w, used
mvars == <<w, used>>
W == Linked(w)

D(n, how) == [n |-> n, how |-> how]
ND(type, deps) == [Plain("node", type) EXCEPT !.deps = deps]

Base ==
  LET W1 == Define(EmptyW, "p", [Plain("ns", "T1") EXCEPT !.accepts = {"S1", "S2"}])
      W2 == Define(W1, "q", [Plain("ns", "T1") EXCEPT !.accepts = {"S1"}])
      W3 == Define(W2, "c", [Plain("ns", "T2") EXCEPT !.accepts = {"T1"}])
      W4 == Define(W3, "a.h", ND("S1", << >>))
      W5 == Pointer(W4, "a", "a.h", "S1", "App")
      W6 == Define(W5, "b.h", ND("S1", <<D("a", "get")>>)) IN
  Pointer(W6, "b", "b.h", "S1", "App")

Src(x, p, m, type) == Define(SrcMod(x, p, m), m, ND(type, <<D(SrcNext(m), "get")>>))
Dst(x, p, m, type) == Define(DstMod(x, p, m, TRUE), m, ND(type, <<D(Head(x.ptrs[p].dst), "get")>>))

Apply(x, o) ==
  CASE o = "a.src1" -> Src(x, "a", "a.src1", "S1")
    [] o = "a.src2" -> Src(x, "a", "a.src2", "S2")
    [] o = "a.dst1" -> Dst(x, "a", "a.dst1", "S1")
    [] o = "a.rpc"  -> Rpc(x, "a", "a.rpc", "S1", "S1", "App")
    [] o = "b.rpc"  -> Rpc(x, "b", "b.rpc", "S1", "S2", "App")
    [] o = "a@p"    -> Child(x, "p", "a", "T1")
    [] o = "b@q"    -> Child(x, "q", "b", "T1")
    [] o = "b@p"    -> Child(x, "p", "b", "T1")
    [] o = "a@c"    -> Child(x, "c", "a", "T2")
    [] o = "p@c"    -> Child(x, "c", "p", "T2")
    [] o = "q@c"    -> Child(x, "c", "q", "T2")
    [] o = "free"   -> Alias(x, "a.dst", "a.h")      \* the service need not be unique

(* A service is deployed once its server side is complete.                      *)
Deployed(s) == used \cap (IF s = "a" THEN {"a@p", "a@c"} ELSE {"b@p", "b@q"}) # {}
InOrder(o) == (o \in {"a.dst1", "a.rpc"} => ~Deployed("a")) /\ (o = "b.rpc" => ~Deployed("b"))

Init == w = Base /\ used = {}
Next == \E o \in Catalogue \ used : InOrder(o) /\ Cardinality(used) < MaxOps /\ w' = Apply(w, o) /\ used' = used \cup {o}
Spec == Init /\ [][Next]_mvars

Builds == {{"b"}, {"p"}, {"p", "q"}, {"c"}, {"a", "q"}, {"c", "b"}}
Good(names) == {S \in Outcomes(W, names) : S.ok /\ ~Ambiguous(W, S)}

Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Real(S) == {b \in Nodes(W, S) : W.defs[b.name].kind \in {"node", "client", "server"}}

(* A node only uses what is in its own namespace or has been passed to it, and  *)
(* to every namespace in between.                                               *)
Visible ==
  \A names \in Builds : \A S \in Good(names) : \A b \in Real(S) : \A i \in 1..Len(Args(W, b)) :
    LET a == Args(W, b)[i] IN
    /\ a \in Nodes(W, S)
    /\ Prefix(a.at, b.at)
    /\ ~Metadata(W, a) => \A k \in (Len(a.at) + 1)..Len(b.at) : [at |-> SubSeq(b.at, 1, k), node |-> a] \in Edges(W, S)

(* Nothing is built where it does not belong.                                   *)
Belongs == \A names \in Builds : \A S \in Good(names) : \A b \in Nodes(W, S) : Accepts(W, b.at, b.name)

(* A service that has to be unique is there once at most in an application.     *)
Single == \A names \in Builds : \A S \in Good(names) :
  (W.alias["a.dst"] # "a.h" => Cardinality({b \in Nodes(W, S) : b.name = "a.h"}) <= 1) /\ Cardinality({b \in Nodes(W, S) : b.name = "b.h"}) <= 1

(* From a client, a call goes through the client's modifiers in the order in    *)
(* which they were added; from the server, through the server's, latest first;  *)
(* and ends at the service.                                                     *)
RECURSIVE Walk(_, _)
Walk(S, b) ==
  LET k == W.defs[b.name].kind IN
  <<b.name>> \o
  CASE k = "addr" -> IF Bound(W, S.R, b) = {} THEN << >> ELSE Walk(S, CHOOSE x \in Bound(W, S.R, b) : TRUE)
    [] b.name \in {"a.h", "b.h"} \/ Args(W, b) = << >> -> << >>
    [] OTHER -> Walk(S, Args(W, b)[1])
Through(P, handler) ==
  P.src \o (IF P.iface \in DOMAIN W.defs /\ W.defs[P.iface].kind = "addr" THEN <<P.iface>> ELSE << >>)
        \o SelectSeq(P.dst, LAMBDA m : m \in DOMAIN W.defs /\ W.defs[m].kind \in {"node", "server"}) \o <<handler>>
Order ==
  \A names \in Builds : \A S \in Good(names) :
    \A b \in {x \in Built(W, S.R) : x.name \in {"a", "b"}} :
      Walk(S, NodeOf(W, b.at, b.name)) = Through(W.ptrs[b.name], b.name \o ".h")

=============================================================================
