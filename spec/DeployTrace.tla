---------------------------- MODULE DeployTrace ----------------------------
(* What was generated for an application, evaluated. Every event is a step of its deployment:
     compile  it compiled, or not
     source   an environment file
     up       a docker-compose file
     kube     the manifests of a Kubernetes application
     start    a process, with the arguments that run.sh gave it
     dial     a client uses its address
     ports    a call of the function that assigns ports *)
EXTENDS LinTrace, Deploy

TInit(ev) == [C |-> ev.cfg, D |-> Nothing]

Keep(s, D, ok) == IF ok THEN {[s EXCEPT !.D = D]} ELSE {}

TSteps(s, t, op) == {}
TEnv(s, ev) ==
  LET vars == s.C.vars IN
  CASE ev.k = "compile" -> Keep(s, s.D, ev.ok = s.C.possible)
    [] ev.k = "source" -> Keep(s, Source(vars, ev.file, ev.env, s.D), EnvOk(vars, ev.file, ev.env) /\ SamePorts(ev.env, ev.other))
    [] ev.k = "up" -> IF UpOk(ev.insts, s.D) THEN {[s EXCEPT !.D = Up(ev.insts, s.D)]} ELSE {}
    [] ev.k = "kube" -> IF KubeOk(ev.pods, ev.cm) THEN {[s EXCEPT !.D = KubeUp(ev.pods, ev.cm, s.D)]} ELSE {}
    [] ev.k = "start" -> Keep(s, Start(ev.net, ev.args, s.D), StartOk(vars, ev.net, ev.ctr, ev.args, s.D))
    [] ev.k = "dial" -> Keep(s, s.D, Reach(ev.net, ev.h, ev.p, ToSet(s.C.dns), s.D) = ev.a)
    [] ev.k = "ports" -> Keep(s, s.D, IF ev.err THEN PortsConflict(ev.in) ELSE ~PortsConflict(ev.in) /\ PortsOk(ev.in, ev.out))
=============================================================================
