-------------------------------- MODULE Wire --------------------------------
(* The compiler's wiring specs and the IR it builds from them.                  *)
(* A wiring spec W is                                                           *)
(*   defs   name -> definition                                                  *)
(*   alias  name -> name                                                        *)
(*   props  name -> key -> sequence of values                                   *)
(*   ptrs   name -> pointer [src, dst: sequences of names, iface]               *)
(*   err    an error was reported while defining                                *)
(* Building is described by what is requested where. A namespace is a path: the *)
(* names of the nested namespace nodes, outermost first; << >> is the           *)
(* application. A request [at, n, e] asks namespace `at` for the node that      *)
(* definition n makes; e: as an argument (rather than only to have it made).    *)
(* Nothing here depends on the order in which requests are served, except which *)
(* of several namespaces makes the server side of a pointer (Outcomes).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

WRange(s) == {s[i] : i \in 1..Len(s)}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]

Plain(kind, type) ==
  [kind |-> kind, type |-> type, deps |-> << >>, fails |-> FALSE, proxy |-> FALSE, accepts |-> {},
   a |-> "", b |-> "", reads |-> << >>]

EmptyW == [defs |-> << >>, alias |-> << >>, props |-> << >>, ptrs |-> << >>, err |-> FALSE]

Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

(* ------------------------------- defining ---------------------------------- *)
Define(W, n, d) == [W EXCEPT !.alias = Without(@, n), !.defs = (n :> d) @@ @,
                             !.props = IF n \in DOMAIN @ THEN @ ELSE (n :> << >>) @@ @]
Alias(W, n, to) == [W EXCEPT !.defs = Without(@, n), !.props = Without(@, n), !.ptrs = Without(@, n), !.alias = (n :> to) @@ @]

(* The aliases a pointer stands for: its client side starts at p.src and goes   *)
(* through the modifiers in the order in which they were added, then to the     *)
(* interface of its server side.                                                *)
SrcNext(m) == m \o ".ptr.src.next"
PtrAlias(p, P) ==
  LET at(i) == IF i > Len(P.src) THEN P.iface ELSE P.src[i] IN
  [x \in {p \o ".src"} \cup {SrcNext(m) : m \in WRange(P.src)} |->
     IF x = p \o ".src" THEN at(1) ELSE at(1 + CHOOSE i \in 1..Len(P.src) : SrcNext(P.src[i]) = x)]
RECURSIVE AllPtrAliases(_, _)
AllPtrAliases(W, ps) ==
  IF ps = {} THEN << >>
  ELSE LET p == CHOOSE x \in ps : TRUE IN PtrAlias(p, W.ptrs[p]) @@ AllPtrAliases(W, ps \ {p})
Aliases(W) == AllPtrAliases(W, DOMAIN W.ptrs) @@ W.alias

None == "?"
RECURSIVE Follow(_, _, _)
Follow(al, n, k) == IF n \notin DOMAIN al THEN n ELSE IF k = 0 THEN None ELSE Follow(al, al[n], k - 1)
(* The definition a name stands for.                                            *)
DefOf(W, n) ==
  IF "links" \in DOMAIN W THEN IF n \in DOMAIN W.links THEN W.links[n] ELSE None
  ELSE LET al == Aliases(W) m == Follow(al, n, Cardinality(DOMAIN al)) IN IF m \in DOMAIN W.defs THEN m ELSE None
(* A finished wiring spec, with what every name stands for (computed once).     *)
Linked(W) == W @@ [links |-> TLCEval([n \in DOMAIN Aliases(W) \cup DOMAIN W.defs |-> DefOf(W, n)])]

Unique(W, alias, type) ==
  IF alias \notin DOMAIN W.alias \/ DefOf(W, W.alias[alias]) = None THEN [W EXCEPT !.err = TRUE]
  ELSE LET n == W.alias[alias]
           vis == n \o ".visibility"
           chk == n \o ".uniqueness_check"
           W1 == Define(W, vis, Plain("vis", type))
           W2 == Define(W1, chk, [Plain("check", W.defs[DefOf(W, n)].type) EXCEPT !.a = n, !.b = vis]) IN
       Alias(W2, alias, chk)

Pointer(W, p, dst, type, uniq) ==
  LET d == p \o ".dst"
      W1 == IF uniq = "" THEN W ELSE Unique(Alias(W, d, dst), d, uniq)
      to == IF uniq = "" THEN dst ELSE d
      W2 == Define(W1, p, [Plain("ptr", type) EXCEPT !.a = p]) IN
  [W2 EXCEPT !.ptrs = (p :> [src |-> << >>, dst |-> <<to>>, iface |-> to]) @@ @]

SrcMod(W, p, m) == [W EXCEPT !.ptrs[p].src = Append(@, m)]
DstMod(W, p, m, iface) == [W EXCEPT !.ptrs[p].dst = <<m>> \o @, !.ptrs[p].iface = IF iface THEN m ELSE @]

Prop(W, n, key) == IF n \in DOMAIN W.props /\ key \in DOMAIN W.props[n] THEN W.props[n][key] ELSE << >>
(* The name whose properties are meant; setting one makes the name known.       *)
PropName(W, n) == Follow(Aliases(W), n, Cardinality(DOMAIN Aliases(W)))
SetProp(W, n0, key, vs) ==
  LET n == PropName(W, n0)
      W1 == IF n \in DOMAIN W.defs THEN W ELSE Define(W, n, Plain("bare", "")) IN
  [W1 EXCEPT !.props[n] = (key :> vs) @@ @]
AddProp(W, n, key, v) == SetProp(W, n, key, Append(Prop(W, PropName(W, n), key), v))

Child(W, ns, c, type) ==
  LET p == DefOf(W, c) IN
  IF p \notin DOMAIN W.ptrs THEN AddProp(W, ns, "Children", c)
  ELSE LET m == c \o "." \o ns
           next == Head(W.ptrs[p].dst)
           W1 == Define(DstMod(W, p, m, FALSE), m, [Plain("mod", type) EXCEPT !.proxy = TRUE, !.a = ns, !.b = next]) IN
       AddProp(W1, ns, "Children", next)

(* A client, an address and a server in the way of the RPC plugins.             *)
Rpc(W, p, base, ctype, stype, reach) ==
  LET cl == base \o ".client" ad == base \o ".addr" sv == base \o ".server"
      W1 == Define(SrcMod(W, p, cl), cl, [Plain("client", ctype) EXCEPT !.a = SrcNext(cl)])
      W2 == Define(Define(Define(W1, ad, [Plain("addr", reach) EXCEPT !.a = base]),
                          base \o ".bind_addr", Plain("conf", reach)), base \o ".dial_addr", Plain("conf", reach))
      next == Head(W2.ptrs[p].dst)
      W3 == [W2 EXCEPT !.ptrs[p].dst = <<sv>> \o @, !.ptrs[p].iface = ad] IN
  Define(W3, sv, [Plain("server", stype) EXCEPT !.a = base, !.b = next])

(* ------------------------------- building ---------------------------------- *)
Accepts(W, at, n) == at = << >> \/ W.defs[n].type \in W.defs[Last(at)].accepts

Req(W, at, name, e) == [at |-> at, n |-> DefOf(W, name), e |-> e]

Tryable(W, name) == LET n == DefOf(W, name) IN n # None /\ ~W.defs[n].fails /\ W.defs[n].kind # "bare"

(* What building n in `at` asks for before it is done.                          *)
Needs(W, at, n) ==
  LET d == W.defs[n] IN
  {Req(W, at, d.deps[i].n, d.deps[i].how # "inst") : i \in {j \in 1..Len(d.deps) : d.deps[j].how # "put" /\ (d.deps[j].how # "try" \/ Tryable(W, d.deps[j].n))}} \cup
  CASE d.kind = "ptr"    -> {Req(W, at, d.a \o ".src", TRUE)}
    [] d.kind = "check"  -> {Req(W, at, d.a, TRUE), Req(W, at, d.b, TRUE)}
    [] d.kind = "client" -> LET r == Req(W, at, d.a, TRUE) IN
         {r} \cup (IF r.n # None /\ W.defs[r.n].kind = "addr" THEN {Req(W, at, W.defs[r.n].a \o ".dial_addr", TRUE)} ELSE {})
    [] d.kind = "server" -> {Req(W, at, d.b, TRUE), Req(W, at, d.a \o ".addr", TRUE), Req(W, at, d.a \o ".bind_addr", TRUE)}
    [] d.kind = "mod"    -> LET r == Req(W, at, d.a, TRUE) IN
         {r} \cup (IF r.n # None /\ W.defs[r.n].kind = "ns" /\ Accepts(W, at, r.n) THEN {Req(W, Append(at, r.n), d.b, FALSE)} ELSE {})
    [] OTHER -> {}

Sync(W, r) == IF r.n = None THEN {}
              ELSE IF Accepts(W, r.at, r.n) THEN Needs(W, r.at, r.n)
              ELSE {[r EXCEPT !.at = Front(r.at)]}
(* A namespace node has its children made once it is there.                     *)
Later(W, r) == IF r.n # None /\ Accepts(W, r.at, r.n) /\ W.defs[r.n].kind = "ns"
               THEN {Req(W, Append(r.at, r.n), c, TRUE) : c \in WRange(Prop(W, r.n, "Children"))} ELSE {}

RECURSIVE Close(_, _, _, _)
Close(W, R, new, all) ==
  IF new = {} THEN R
  ELSE LET nxt == UNION {Sync(W, r) \cup (IF all THEN Later(W, r) ELSE {}) : r \in new} IN
       Close(W, R \cup new, nxt \ (R \cup new), all)

Here(W, r) == Accepts(W, r.at, r.n)

(* No request may wait for itself.                                              *)
RECURSIVE Done(_, _, _)
Done(W, R, D) ==
  LET D2 == {r \in R : \A q \in Sync(W, r) : q \in D} IN IF D2 = D THEN D ELSE Done(W, R, D2)

(* The node a request yields.                                                   *)
RECURSIVE NodeOf(_, _, _)
NodeOf(W, at, n) ==
  IF ~Accepts(W, at, n) THEN NodeOf(W, Front(at), n)
  ELSE LET d == W.defs[n] IN
  CASE d.kind = "ptr"   -> NodeOf(W, at, DefOf(W, d.a \o ".src"))
    [] d.kind = "check" -> NodeOf(W, at, DefOf(W, d.a))
    [] d.kind = "mod"   -> NodeOf(W, Append(at, DefOf(W, d.a)), DefOf(W, d.b))
    [] OTHER            -> [at |-> at, name |-> n]
RECURSIVE Owner(_, _, _)
Owner(W, at, n) == IF Accepts(W, at, n) THEN at ELSE Owner(W, Front(at), n)

(* Why a set of requests cannot all be served.                                  *)
BadReq(W, r) ==
  \/ r.n = None
  \/ W.defs[r.n].kind = "bare"
  \/ W.defs[r.n].fails
  \/ Here(W, r) /\ LET d == W.defs[r.n] IN
       \/ \E i \in 1..Len(d.reads) : DefOf(W, d.reads[i]) = None
       \/ d.kind = "mod" /\ LET q == DefOf(W, d.a) IN q = None \/ W.defs[q].kind # "ns" \/ ~Accepts(W, r.at, q)
       \/ d.kind = "client" /\ LET q == DefOf(W, d.a) IN q = None \/ W.defs[q].kind # "addr"
Clash(W, R) ==
  \E r, q \in R : /\ r.n = q.n /\ r.at # q.at
                  /\ r.n # None /\ W.defs[r.n].kind = "check" /\ Here(W, r) /\ Here(W, q)
                  /\ Owner(W, r.at, W.defs[r.n].b) = Owner(W, q.at, W.defs[r.n].b)
Impossible(W, R) == (\E r \in R : BadReq(W, r)) \/ Done(W, R, {}) # R \/ Clash(W, R)

Built(W, R) == {[at |-> r.at, name |-> r.n] : r \in {q \in R : Here(W, q)}}
Bound(W, R, addr) ==
  {b \in Built(W, R) : W.defs[b.name].kind = "server" /\ NodeOf(W, b.at, W.defs[b.name].a \o ".addr") = addr}

(* A pointer that was made has its server side made as well, unless it is there *)
(* (or is reached without an address).                                          *)
Settle(W, S, b) ==
  LET P == W.ptrs[W.defs[b.name].a]
      i == Req(W, b.at, P.iface, TRUE)
      R1 == Close(W, S.R, {i}, FALSE)
      addr == NodeOf(W, b.at, i.n)
      R2 == Close(W, R1, {Req(W, b.at, Head(P.dst), FALSE)}, FALSE)
      Full(R) == Close(W, {}, R, TRUE)
      Ok(R) == [R |-> R, done |-> S.done \cup {b}, ok |-> TRUE]
      Failed == [R |-> {}, done |-> {}, ok |-> FALSE] IN
  IF Impossible(W, R1) THEN Failed
  ELSE IF W.defs[addr.name].kind # "addr" \/ Bound(W, R1, addr) # {}
       THEN IF Impossible(W, Full(R1)) THEN Failed ELSE Ok(Full(R1))
  ELSE IF Impossible(W, R2) \/ Bound(W, R2, addr) = {} \/ Impossible(W, Full(R2)) THEN Failed
  ELSE Ok(Full(R2))

Waiting(W, S) == {b \in Built(W, S.R) : W.defs[b.name].kind = "ptr"} \ S.done

(* All ends of building; the pointers are settled in any order.                 *)
RECURSIVE Ends(_, _)
Ends(W, Ss) ==
  LET more == {S \in Ss : S.ok /\ Waiting(W, S) # {}} IN
  IF more = {} THEN Ss
  ELSE Ends(W, (Ss \ more) \cup UNION {
         LET w == Waiting(W, S)
             all == [b \in w |-> Settle(W, S, b)]
             quiet == {b \in w : all[b].ok /\ all[b].R = S.R} IN
         IF quiet # {} THEN {[S EXCEPT !.done = @ \cup quiet]} ELSE {all[b] : b \in w} : S \in more})

Start(W, names) ==
  LET R == Close(W, {}, {Req(W, << >>, n, TRUE) : n \in names}, TRUE) IN
  IF W.err \/ Impossible(W, R) THEN [R |-> {}, done |-> {}, ok |-> FALSE] ELSE [R |-> R, done |-> {}, ok |-> TRUE]
Outcomes(W, names) == Ends(W, {Start(W, names)})

(* --------------------------------- the IR ---------------------------------- *)
(* Nodes that others put into the namespace that takes them, on the way to the   *)
(* application: a dependency [n |-> type, how |-> "put"].                       *)
RECURSIVE TakerOf(_, _, _)
TakerOf(W, at, type) == IF at = << >> \/ type \in W.defs[Last(at)].accepts THEN at ELSE TakerOf(W, Front(at), type)
PutName(b, i) == b.name \o "." \o (IF b.at = << >> THEN "app" ELSE Last(b.at)) \o "." \o ToString(i)
PutBy(W, b, i) == [at |-> TakerOf(W, b.at, W.defs[b.name].deps[i].n), name |-> PutName(b, i)]
PutDeps(W, b) == {i \in 1..Len(W.defs[b.name].deps) : W.defs[b.name].deps[i].how = "put"}
PutNodes(W, S) == UNION {{PutBy(W, b, i) : i \in PutDeps(W, b)} : b \in Built(W, S.R)}
PutEdges(W, S) == UNION {UNION {{[at |-> SubSeq(b.at, 1, k), node |-> PutBy(W, b, i)] : k \in (Len(PutBy(W, b, i).at) + 1)..Len(b.at)}
                                  : i \in PutDeps(W, b)} : b \in Built(W, S.R)}
PutTwice(W, S) == \E b, c \in Built(W, S.R) : b # c /\ \E i \in PutDeps(W, b), j \in PutDeps(W, c) : PutName(b, i) = PutName(c, j)

Indirect == {"ptr", "check", "mod", "vis"}
Nodes(W, S) == {b \in Built(W, S.R) : W.defs[b.name].kind \notin Indirect} \cup PutNodes(W, S)
Metadata(W, node) == W.defs[node.name].kind \in {"vis", "addr"}
Edges(W, S) ==
  {[at |-> r.at, node |-> NodeOf(W, r.at, r.n)] : r \in
     {q \in S.R : q.e /\ ~Here(W, q) /\ ~W.defs[q.n].proxy /\ ~Metadata(W, NodeOf(W, q.at, q.n))}}
  \cup PutEdges(W, S)
(* A namespace in which one name means two nodes: which one its users get is    *)
(* not determined.                                                              *)
Ambiguous(W, S) ==
  \/ \E r, q \in S.R : /\ r.at = q.at /\ r.n # q.n
                    /\ LET x == NodeOf(W, r.at, r.n) y == NodeOf(W, q.at, q.n) IN x.name = y.name /\ x # y
  \/ PutTwice(W, S)
Nothing == [at |-> << >>, name |-> None]
Args(W, b) ==
  LET d == W.defs[b.name] IN
  [i \in 1..Len(d.deps) |->
     IF d.deps[i].how = "try" /\ ~Tryable(W, d.deps[i].n) THEN Nothing
     ELSE IF d.deps[i].how = "put" THEN PutBy(W, b, i)
     ELSE NodeOf(W, b.at, DefOf(W, d.deps[i].n))]
  \o CASE d.kind = "client" -> <<NodeOf(W, b.at, DefOf(W, d.a)), NodeOf(W, b.at, W.defs[DefOf(W, d.a)].a \o ".dial_addr")>>
       [] d.kind = "server" -> <<NodeOf(W, b.at, DefOf(W, d.b)), NodeOf(W, b.at, d.a \o ".bind_addr")>>
       [] OTHER -> << >>
Read(W, b) == LET d == W.defs[b.name] IN [i \in 1..Len(d.reads) |-> Prop(W, DefOf(W, d.reads[i]), "k")]
=============================================================================
