--------------------------- MODULE NetQueueTrace ----------------------------
EXTENDS LinTrace, NetQueueOps
TInit(ev) == NetQInit
TSteps(s, t, op) == NetQSteps(s, t, op)
TEnv(s, ev) == CASE ev.what = "cancel" -> {NetQCancel(s, ev.t)}
                 [] ev.what = "down" -> {NetQDown(s)}
                 [] ev.what = "drained" -> IF Empty(s) THEN {s} ELSE {}
                 [] OTHER -> {}
=============================================================================
