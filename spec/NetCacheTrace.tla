--------------------------- MODULE NetCacheTrace ----------------------------
EXTENDS LinTrace, NetCacheOps
TInit(ev) == NetInit
TSteps(s, t, op) == NetSteps(s, t, op)
TEnv(s, ev) == {}
=============================================================================
