---------------------------- MODULE RegistryTrace ---------------------------
EXTENDS LinTrace, RegistryOps
TInit(ev) == [RegInit EXCEPT !.partial = ev.partial]
TSteps(s, t, op) == RegSteps(s, t, op)
TEnv(s, ev) == {}
=============================================================================
