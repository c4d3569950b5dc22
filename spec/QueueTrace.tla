----------------------------- MODULE QueueTrace -----------------------------
EXTENDS LinTrace, QueueOps
TInit(ev) == QueueInit(ev.cap)
TSteps(s, t, op) == QueueSteps(s, t, op)
TEnv(s, ev) == IF ev.what = "cancel" THEN {QueueCancel(s, ev.t)} ELSE {}
=============================================================================
