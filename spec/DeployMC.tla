------------------------------ MODULE DeployMC ------------------------------
(* The compiler's way of giving out ports and addresses, for every placement of a few servers on the machine,
   in the containers of two compose deployments, or in two pods; then every order of bringing things up and
   of starting processes. In the end everybody reaches everybody. *)
EXTENDS Deploy

CONSTANTS Servers,     \* all of them call each other
          FixedPort,   \* port of those that are prebuilt images
          Initial      \* first port of the environment file

VARIABLES place, pref, st, done

Ctrs == {"d1.a", "d1.b", "d2.c"}
Dep(c) == IF c = "d2.c" THEN "d2" ELSE "d1"
Pods == {"p", "q"}
Vars == [s \in Servers |-> [bind |-> s \o "B", dial |-> s \o "D", svc |-> s]]

Places == {f \in [Servers -> {Host} \cup Ctrs] : TRUE} \cup [Servers -> Pods]
Kube == \E s \in Servers : place[s] \in Pods
Fixed(s) == pref[s] = "image"

\* some order of the servers
Order == CHOOSE f \in [1..Cardinality(Servers) -> Servers] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]
Index(s) == CHOOSE i \in DOMAIN Order : Order[i] = s

\* greedy assignment within a network: one after the other, the first port that is free
RECURSIVE Give(_, _, _)
Give(ss, taken, out) ==
    IF ss = <<>> THEN out
    ELSE LET s == Head(ss)
             from == IF pref[s] = "grpc" THEN 12345 ELSE 2000
             p == CHOOSE q \in from .. (from + Cardinality(Servers)) : q \notin taken /\ \A r \in from .. (q - 1) : r \in taken
         IN Give(Tail(ss), taken \cup {p}, out @@ (s :> p))

In(n) == {s \in Servers : place[s] = n}
FixedIn(n) == {s \in In(n) : Fixed(s)}
\* several images with the same port in a pod: the compiler refuses
Refused == \E n \in Pods \cup Ctrs : Cardinality(FixedIn(n)) > 1
Ports(n) == Give(SelectSeq(Order, LAMBDA s : s \in In(n) /\ ~Fixed(s)), IF FixedIn(n) # {} THEN {FixedPort} ELSE {},
                 [s \in FixedIn(n) |-> FixedPort])

EnvFile == [v \in {Vars[s].bind : s \in Servers} \cup {Vars[s].dial : s \in Servers} |->
              LET s == CHOOSE t \in Servers : v \in {Vars[t].bind, Vars[t].dial}
              IN [h |-> IF v = Vars[s].bind THEN AnyHost ELSE s, p |-> Initial + Index(s) - 1]]

SeqOf(S) == LET f == CHOOSE g \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN g : i # j => g[i] # g[j] IN f

Lit(n, h, p) == [n |-> n, k |-> "lit", h |-> h, p |-> p]
Ref(n) == [n |-> n, k |-> "ref", from |-> n]

\* containers that have images only run nothing that dials
Inst(c) ==
    LET ports == Ports(c)
        mine == SeqOf(In(c) \ FixedIn(c))
        dial(s) == IF place[s] \in Ctrs /\ Dep(place[s]) = Dep(c) THEN Lit(Vars[s].dial, place[s], Ports(place[s])[s])
                   ELSE Ref(Vars[s].dial)
        dials == [i \in DOMAIN Order |-> dial(Order[i])]
    IN [n |-> c, host |-> c, net |-> c,
        env |-> [i \in DOMAIN mine |-> Lit(Vars[mine[i]].bind, AnyHost, ports[mine[i]])] \o dials,
        ports |-> LET all == SeqOf(In(c)) IN [i \in DOMAIN all |-> [k |-> "ref", from |-> Vars[all[i]].bind, int |-> ports[all[i]]]],
        pre |-> LET f == SeqOf(FixedIn(c)) IN [i \in DOMAIN f |-> [p |-> FixedPort, a |-> f[i]]]]

Insts(d) == LET C == {c \in Ctrs : Dep(c) = d /\ In(c) # {}} IN [i \in 1..Cardinality(C) |-> Inst(SeqOf(C)[i])]

PodOf(n) ==
    LET ports == Ports(n)
        mine == SeqOf(In(n) \ FixedIn(n))
        dial(s) == IF place[s] = n THEN Lit(Vars[s].dial, "localhost", ports[s]) ELSE Ref(Vars[s].dial)
        all == SeqOf(In(n))
    IN [n |-> n, svcname |-> n, net |-> n, legal |-> TRUE,
        insts |-> <<[n |-> "c", image |-> "i",
                     env |-> [i \in DOMAIN mine |-> Lit(Vars[mine[i]].bind, AnyHost, ports[mine[i]])] \o
                             [i \in DOMAIN Order |-> dial(Order[i])],
                     pre |-> LET f == SeqOf(FixedIn(n)) IN [i \in DOMAIN f |-> [p |-> FixedPort, a |-> f[i]]]]>>,
        svc |-> [i \in DOMAIN all |-> [n |-> all[i], port |-> ports[all[i]], target |-> ports[all[i]]]]]
PodSeq == LET P == {n \in Pods : In(n) # {}} IN [i \in 1..Cardinality(P) |-> PodOf(SeqOf(P)[i])]
CM == [v \in {Vars[s].dial : s \in Servers} |->
         LET s == CHOOSE t \in Servers : v = Vars[t].dial IN [h |-> place[s], p |-> Ports(place[s])[s]]]

Args(n) == LET mine == SeqOf(In(n) \ FixedIn(n))
               e == EnvOf(n, IF n \in Pods THEN "c" ELSE n, st)
           IN [i \in DOMAIN mine |-> [a |-> mine[i], k |-> "bind", h |-> e[Vars[mine[i]].bind].h, p |-> e[Vars[mine[i]].bind].p]]

------------------------------------------------------------------------------
Init == /\ place \in Places
        /\ pref \in [Servers -> {"image", "grpc", "http"}]
        /\ \A s \in Servers : place[s] = Host => pref[s] # "image"
        /\ st = Nothing
        /\ done = {}
        /\ ~Refused

Todo == {"source"} \cup {d \in {"d1", "d2"} : \E c \in Ctrs : Dep(c) = d /\ In(c) # {}}
                   \cup (IF Kube THEN {"kube"} ELSE {}) \cup {"start " \o n : n \in {place[s] : s \in Servers}}

Step(x, ok, new) == /\ x \in Todo \ done
                    /\ Assert(ok, <<"impossible", x, place, pref>>)
                    /\ st' = new
                    /\ done' = done \cup {x}
                    /\ UNCHANGED <<place, pref>>

Next == \/ Step("source", EnvOk(Vars, "dns", EnvFile), Source(Vars, "dns", EnvFile, st))
        \/ "source" \in done /\ \E d \in {"d1", "d2"} : Step(d, UpOk(Insts(d), st), Up(Insts(d), st))
        \/ Kube /\ Step("kube", KubeOk(PodSeq, CM), KubeUp(PodSeq, CM, st))
        \/ \E n \in {place[s] : s \in Servers} :
             /\ "source" \in done
             /\ n \in Ctrs => Dep(n) \in done
             /\ n \in Pods => "kube" \in done
             /\ Step("start " \o n, StartOk(Vars, n, IF n \in Pods THEN "c" ELSE n, Args(n), st), Start(n, Args(n), st))

DialOf(n, s) == EnvOf(n, IF n \in Pods THEN "c" ELSE n, st)[Vars[s].dial]

\* nobody reaches anything else than the server, at any time
NeverWrong == "source" \in done =>
    \A n \in {place[s] : s \in Servers}, s \in Servers :
      (n = Host \/ Dom(st.cenv) \cap {<<n, n>>, <<n, "c">>} # {}) =>
        Reach(n, DialOf(n, s).h, DialOf(n, s).p, Servers, st) \in {s, None}

\* in the end everybody reaches everybody
InTheEnd == done = Todo =>
    \A n \in {place[s] : s \in Servers}, s \in Servers : Reach(n, DialOf(n, s).h, DialOf(n, s).p, Servers, st) = s

Spec == Init /\ [][Next]_<<place, pref, st, done>>
=============================================================================
