--------------------------- MODULE PlacementTrace ---------------------------
(* Events: the nodes of a compiled application (nodes), or that it did not   *)
(* compile (failed).                                                         *)
EXTENDS LinTrace, Placement

TInit(ev) == [p |-> ev.p]
TSteps(s, t, op) == {}
TEnv(s, ev) == IF CASE ev.k = "once" -> Once(s.p, ev.nodes)
                    [] ev.k = "twins" -> NoTwins(ev.nodes)
                    [] ev.k = "given" -> Given(s.p, ev.nodes)
                    [] ev.k = "pools" -> Pooled(s.p, ev.nodes)
                    [] ev.k = "failed" -> FALSE
               THEN {s} ELSE {}
=============================================================================
