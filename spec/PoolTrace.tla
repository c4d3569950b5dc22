------------------------------ MODULE PoolTrace -----------------------------
EXTENDS LinTrace, PoolOps
TInit(ev) == PoolInit(ev.cap, ev.single)
TSteps(s, t, op) == PoolSteps(s, t, op)
TEnv(s, ev) == PoolEnv(s, ev)
=============================================================================
