------------------------------- MODULE Deploy -------------------------------
(* Where the servers of an application listen, and where the addresses that its clients are given lead,
   when its artifacts are deployed:

     HOST    one machine: processes started by run.sh, and the ports that containers publish
     compose deployments: every container is a network of its own that has the names of the others
     Kubernetes applications: every pod is a network, whose Service gives other pods access to it

   A deployment happens in steps: an environment file is sourced, deployments are brought up, processes
   start and bind what they serve. Every step has to be possible: required variables are set, no port is
   bound twice in a network. Afterwards every client that dials reaches the server that it was wired to.

   Addresses (of servers) are strings; the variable that has the bind address of a is Var[a].bind, and
   that of its dial address Var[a].dial. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Host == "HOST"
None == "none"

\* the state before anything has happened
Nothing == [env |-> <<>>,       \* variable -> [h, p] of the machine
            file |-> "",        \* which file they are from
            nets |-> (Host :> <<>>),   \* network -> port -> address
            fwd |-> (Host :> <<>>),    \* network -> port -> [net, p], ports that are forwarded
            names |-> (Host :> <<>>),  \* network -> name -> network
            cenv |-> <<>>]      \* [network, container] -> variable -> [h, p]

Dom(f) == DOMAIN f
ToSet(s) == {s[i] : i \in DOMAIN s}
\* a sequence of records with field n as a function of the names
ByName(s) == [x \in {s[i].n : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j].n = x IN s[i]]
Val(r) == [h |-> r.h, p |-> r.p]

ValidPort(p) == p \in 1 .. 65535
AnyHost == "0.0.0.0"

------------------------------------------------------------------------------
(* Environment files. Every address has a port of its own; what binds it and what dials it agree. *)

\* the address that a variable is about, and whether it is for binding
About(vars, v) == {<<a, k>> \in Dom(vars) \X {"bind", "dial"} : vars[a][k] = v}

EnvOk(vars, file, env) ==
    /\ \A v \in Dom(env) : ValidPort(env[v].p)
    /\ \A v, w \in Dom(env) : \A x \in About(vars, v), y \in About(vars, w) :
         (env[v].p = env[w].p) <=> (x[1] = y[1])
    /\ \A v \in Dom(env) : \A x \in About(vars, v) :
         IF x[2] = "bind" THEN env[v].h = AnyHost
         ELSE env[v].h = IF file = "local" THEN "localhost" ELSE vars[x[1]].svc

\* parts of an application may be started with either
SamePorts(env, other) == /\ Dom(env) = Dom(other)
                         /\ \A v \in Dom(env) : env[v].p = other[v].p

\* whatever is used on the machine or passed on to containers has a value
Source(vars, file, env, st) == [st EXCEPT !.env = env, !.file = file]

------------------------------------------------------------------------------
(* Bringing up a compose deployment *)

Resolve(v, env) ==
    IF v.k = "lit" THEN {Val(v)}
    ELSE IF v.from \in Dom(env) THEN {env[v.from]} ELSE {}

InstEnv(inst, env) == [n \in {inst.env[i].n : i \in DOMAIN inst.env} |->
    LET i == CHOOSE j \in DOMAIN inst.env : inst.env[j].n = n IN Resolve(inst.env[i], env)]

\* every required variable is set, and what is published does not collide with anything
Published(insts) == {<<i, j>> : i \in DOMAIN insts, j \in 1 .. 20} \cap
                    UNION {{i} \X DOMAIN insts[i].ports : i \in DOMAIN insts}
HostPort(insts, x, env) == LET q == insts[x[1]].ports[x[2]] IN {v.p : v \in Resolve(q, env)}

UpOk(insts, st) ==
    /\ \A i \in DOMAIN insts :
         /\ \A j \in DOMAIN insts[i].env : insts[i].env[j].k = "opt" \/ Resolve(insts[i].env[j], st.env) # {}
         /\ \A j, k \in DOMAIN insts[i].env : j # k => insts[i].env[j].n # insts[i].env[k].n
         /\ \A j \in DOMAIN insts : i # j => insts[i].host # insts[j].host
    /\ \A x \in Published(insts) :
         LET ps == HostPort(insts, x, st.env) IN
         /\ ps # {}
         /\ \A p \in ps : /\ p \notin Dom(st.nets[Host]) \cup Dom(st.fwd[Host])
                          /\ \A y \in Published(insts) : y # x => p \notin HostPort(insts, y, st.env)

Pre(inst) == [p \in {inst.pre[i].p : i \in DOMAIN inst.pre} |->
                LET i == CHOOSE j \in DOMAIN inst.pre : inst.pre[j].p = p IN inst.pre[i].a]

One(S) == CHOOSE x \in S : TRUE

Up(insts, st) ==
    LET N == {insts[i].net : i \in DOMAIN insts}
        inst(n) == insts[CHOOSE i \in DOMAIN insts : insts[i].net = n]
        names == [h \in {insts[i].host : i \in DOMAIN insts} |-> insts[CHOOSE i \in DOMAIN insts : insts[i].host = h].net]
        \* the names of services (in compose) lead to containers too
        all == names @@ [h \in {insts[i].n : i \in DOMAIN insts} |-> insts[CHOOSE i \in DOMAIN insts : insts[i].n = h].net]
        pub == [p \in UNION {HostPort(insts, x, st.env) : x \in Published(insts)} |->
                  LET x == CHOOSE y \in Published(insts) : p \in HostPort(insts, y, st.env)
                  IN [net |-> insts[x[1]].net, p |-> insts[x[1]].ports[x[2]].int]]
    IN [st EXCEPT !.nets = @ @@ [n \in N |-> Pre(inst(n))],
                  !.fwd = [n \in Dom(@) \cup N |-> IF n = Host THEN pub @@ @[n] ELSE IF n \in N THEN <<>> ELSE @[n]],
                  !.names = @ @@ [n \in N |-> all],
                  !.cenv = @ @@ [x \in {<<n, inst(n).n>> : n \in N} |->
                       LET e == InstEnv(inst(x[1]), st.env) IN [v \in {w \in Dom(e) : e[w] # {}} |-> One(e[v])]]]

------------------------------------------------------------------------------
(* Bringing up a Kubernetes application. The variables of a container are literals or refer to the map. *)

PodContainers(pods) == UNION {{i} \X DOMAIN pods[i].insts : i \in DOMAIN pods}

KubeOk(pods, cm) ==
    /\ \A i, j \in DOMAIN pods : i # j => pods[i].n # pods[j].n
    /\ \A i \in DOMAIN pods : pods[i].legal
    /\ \A x \in PodContainers(pods) : LET c == pods[x[1]].insts[x[2]] IN
         /\ c.image # ""
         /\ \A j \in DOMAIN c.env : Resolve(c.env[j], cm) # {}
    /\ \A i \in DOMAIN pods : LET ps == pods[i].svc IN
         /\ \A j, k \in DOMAIN ps : j # k => ps[j].port # ps[k].port /\ ps[j].n # ps[k].n
         /\ \A j \in DOMAIN ps : ValidPort(ps[j].port)
    \* containers of a pod share its ports
    /\ \A i \in DOMAIN pods : \A j, k \in DOMAIN pods[i].insts : j # k =>
         Dom(Pre(pods[i].insts[j])) \cap Dom(Pre(pods[i].insts[k])) = {}

KubeUp(pods, cm, st) ==
    LET N == {pods[i].net : i \in DOMAIN pods}
        pod(n) == pods[CHOOSE i \in DOMAIN pods : pods[i].net = n]
        RECURSIVE pre(_)
        pre(cs) == IF cs = <<>> THEN <<>> ELSE Pre(Head(cs)) @@ pre(Tail(cs))
        \* a Service is a network of its own that forwards to its pod
        svcnet(n) == n \o ".service"
        S == {svcnet(n) : n \in N}
        podof(s) == CHOOSE n \in N : svcnet(n) = s
        names == [h \in {pods[i].svcname : i \in DOMAIN pods} |-> svcnet(pods[CHOOSE i \in DOMAIN pods : pods[i].svcname = h].net)]
        ports(n) == [p \in {pod(n).svc[j].port : j \in DOMAIN pod(n).svc} |->
                       [net |-> n, p |-> pod(n).svc[CHOOSE j \in DOMAIN pod(n).svc : pod(n).svc[j].port = p].target]]
        C == UNION {{<<n, pod(n).insts[j].n>> : j \in DOMAIN pod(n).insts} : n \in N}
        inst(x) == LET c == pod(x[1]).insts IN c[CHOOSE j \in DOMAIN c : c[j].n = x[2]]
    IN [st EXCEPT !.nets = @ @@ [n \in N |-> pre(pod(n).insts)] @@ [s \in S |-> <<>>],
                  !.fwd = @ @@ [n \in N |-> <<>>] @@ [s \in S |-> ports(podof(s))],
                  !.names = @ @@ [n \in N |-> names] @@ [s \in S |-> <<>>],
                  !.cenv = @ @@ [x \in C |-> LET e == InstEnv(inst(x), cm) IN [v \in Dom(e) |-> One(e[v])]]]

------------------------------------------------------------------------------
(* A process starts in a network; it is given what its environment says, and binds what it serves. *)

EnvOf(net, ctr, st) == IF net = Host THEN st.env ELSE st.cenv[<<net, ctr>>]

\* args: sequence of [a, k, h, p]: address, "bind" or "dial", and the value
StartOk(vars, net, ctr, args, st) ==
    /\ \A i \in DOMAIN args :
         /\ vars[args[i].a][args[i].k] \in Dom(EnvOf(net, ctr, st))
         /\ EnvOf(net, ctr, st)[vars[args[i].a][args[i].k]] = Val(args[i])
    /\ \A i \in DOMAIN args : args[i].k = "bind" =>
         /\ args[i].h = AnyHost
         /\ ValidPort(args[i].p)
         /\ args[i].p \notin Dom(st.nets[net]) \cup Dom(st.fwd[net])
         /\ \A j \in DOMAIN args : i # j /\ args[j].k = "bind" => args[i].p # args[j].p

Start(net, args, st) ==
    LET b == {i \in DOMAIN args : args[i].k = "bind"}
    IN [st EXCEPT !.nets[net] = @ @@ [p \in {args[i].p : i \in b} |-> args[CHOOSE i \in b : args[i].p = p].a]]

------------------------------------------------------------------------------
(* Where a dial address leads *)

RECURSIVE At(_, _, _)
At(net, p, st) ==
    IF p \in Dom(st.nets[net]) THEN st.nets[net][p]
    ELSE IF p \in Dom(st.fwd[net]) THEN At(st.fwd[net][p].net, st.fwd[net][p].p, st)
    ELSE None

\* dns: names that lead to the machine
Reach(net, h, p, dns, st) ==
    IF h = "localhost" THEN At(net, p, st)
    ELSE IF h \in Dom(st.names[net]) THEN At(st.names[net][h], p, st)
    ELSE IF st.file = "dns" /\ h \in dns THEN At(Host, p, st)
    ELSE None

------------------------------------------------------------------------------
(* Assignment of ports. binds: sequence of [port, pref], port 0 where there is none yet. *)

PortsConflict(in) == \E i, j \in DOMAIN in : i # j /\ in[i].port # 0 /\ in[i].port = in[j].port

PortsOk(in, out) ==
    /\ Len(out) = Len(in)
    /\ \A i \in DOMAIN in :
         /\ ValidPort(out[i].port)
         /\ in[i].port # 0 => out[i].port = in[i].port
         /\ out[i].pref = out[i].port           \* it prefers the same port the next time
         /\ \A j \in DOMAIN in : i # j => out[i].port # out[j].port
    \* a preference is granted unless somebody else has the port
    /\ \A i \in DOMAIN in : in[i].port = 0 /\ in[i].pref # 0 /\ out[i].port # in[i].pref =>
         \E j \in DOMAIN in : j # i /\ out[j].port = in[i].pref
=============================================================================
