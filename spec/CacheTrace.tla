----------------------------- MODULE CacheTrace -----------------------------
EXTENDS LinTrace, CacheOps
TInit(ev) == CacheInit
TSteps(s, t, op) == CacheSteps(s, t, op)
TEnv(s, ev) == {}
=============================================================================
