------------------------------ MODULE AppTrace ------------------------------
(* Validation of recorded runs of compiled applications. Events:                *)
(*   init cfg; built: how often every service was constructed (inst -> n) ;     *)
(*   call c arg from dep ts; enter c arg n inst ts; exit c n val err ts late;           *)
(*   ret c val err ts; cancel c; end: nothing runs any more;                    *)
(*   spans: all spans reported to the collector (id -> span)                    *)
EXTENDS App, TLCExt, Json, Functions
CONSTANT TraceFile
VARIABLES tid, l, S
Traces == ndJsonDeserialize(TraceFile)
Hist == Traces[tid]
cfg == Hist[1].cfg
More == l < Len(Hist)
Ev == Hist[l + 1]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ S = Start

(* The spans that were reported, once nothing runs any more: those of the          *)
(* specification, those of a tree in one trace of their own.                     *)
RootOf(sp, i) == LET RECURSIVE R(_)
                     R(j) == IF sp[j].parent = "" \/ sp[j].parent \notin DOMAIN sp THEN j ELSE R(sp[j].parent)
                 IN R(i)
SpansAre(T, sp) ==
  /\ \A i \in DOMAIN T.spans : T.spans[i].ended
  /\ \A i \in DOMAIN sp : sp[i].parent = "" \/ sp[i].parent \in DOMAIN sp
  /\ \A i, j \in DOMAIN sp : (sp[i].trace = sp[j].trace) = (RootOf(sp, i) = RootOf(sp, j))
  /\ Forest([i \in DOMAIN sp |-> [sp[i] EXCEPT !.at = Range(@)]], "") = Forest(T.spans, << >>)

Visible ==
  /\ More
  /\ CASE Ev.e = "built" -> (\A s \in DOMAIN cfg.svc : cfg.svc[s].kind = "svc" => s \in DOMAIN Ev.n /\ Ev.n[s] = 1) /\ S' = S
       [] Ev.e = "call" -> S' = DoCall(cfg, S, Ev.c, Ev.root, Ev.arg, Ev.m, Ev.from, Ev.dep, Ev.ts, Ev.parent, Ev.pn)
       [] Ev.e = "enter" -> S' \in DoEnter(S, Ev.c, Ev.arg, Ev.inst, Ev.n, Ev.ts, Ev.traced)
       [] Ev.e = "exit" -> S' \in DoExit(S, Ev.c, Ev.n, Ev.val, Ev.err, Ev.ts, Ev.late, Ev.late /\ Ev.bctx)
       [] Ev.e = "ret" -> S' \in DoRet(S, Ev.c, Ev.val, Ev.err, Ev.ts)
       [] Ev.e = "cancel" -> S' = DoCancel(S, Ev.c)
       [] Ev.e = "end" -> S' = S
       [] Ev.e = "spans" -> SpansAre(S, Ev.spans) /\ S' = S
       [] OTHER -> FALSE
  /\ l' = l + 1
  /\ UNCHANGED tid

(* Internal steps only happen when they may be needed: right before something    *)
(* that is seen of a call, and for that call or where others share its state.    *)
Hidden == /\ More /\ Ev.e \in {"enter", "ret"}
          /\ S' \in Internal(cfg, S, Ev.ts, Ev.c)
          /\ UNCHANGED <<tid, l>>

TraceNext == Visible \/ Hidden
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, S>>

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Reached(i) == TLCGet(i)
TraceProgress == IF l > Reached(tid) THEN TLCSet(tid, l) ELSE TRUE
TraceReport == PrintT("TRACE-REPORT " \o ToString([i \in 1..Len(Traces) |-> Reached(i)]))
=============================================================================
