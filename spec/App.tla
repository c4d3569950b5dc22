-------------------------------- MODULE App --------------------------------
(* A compiled application: what calls of its services do.                      *)
(*                                                                             *)
(* cfg.svc[s] describes service s: kind "svc" or "lb" (a load balancer in front *)
(* of the services deps), proc (where its server side lives), deps, and mods:   *)
(* the modifiers applied to it, in the order of the wiring spec.                *)
(*                                                                             *)
(* A call runs down the chain of the service called: the client-side modifiers  *)
(* in the order applied, the RPC, the server-side modifiers with the last one   *)
(* applied first, then the service. What it returns comes up the same way. The  *)
(* computation of a call is a record:                                           *)
(*   c     the call                    proc    where it came from               *)
(*   arg   what it was called with (its method and arguments)                   *)
(*   root  the call from outside that it is part of                             *)
(*   mode  "down": the elements rest are still ahead; "in": the service runs    *)
(*         (its n-th invocation); "up": val and err are on their way back       *)
(*   frames the modifiers passed on the way that wait for the result            *)
(*   tmin  it is now at least this late (microseconds)                          *)
(*   dl    the context it was given may expire from this time on                *)
(*   main  its result is the result of the call (FALSE: given up by a timeout)  *)
(*   span  the span its context is in, << >> if none                            *)
(*   tctx  the span that was passed along by a tracing client                   *)
(*                                                                             *)
(* State: comps (a set of computations), obj (the state of stateful modifiers), *)
(* cancelled (calls whose context is cancelled), spans (the spans of tracing). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]

Client == {"retry", "retryfd", "retryeb", "retryrl", "retrytb", "timeout", "pool", "cb"}
Server == {"latency", "fault", "delay", "health"}

(* Client-side modifiers exist once per process that calls, server-side ones once. *)
ClientOf(m) == IF m.k = "otel" THEN [m EXCEPT !.k = "otelc"] ELSE m
ServerOf(m) == IF m.k = "otel" THEN [m EXCEPT !.k = "otels"] ELSE m
El(cfg, s, m, proc) == m @@ [iface |-> cfg.svc[s].iface, meth |-> cfg.svc[s].meth, id |-> IF m.k \in Client THEN s \o "." \o m.k \o "@" \o proc ELSE s \o "." \o m.k]
Handler(cfg, s) == IF cfg.svc[s].kind = "lb"
                     THEN [k |-> "lb", id |-> s, deps |-> cfg.svc[s].deps, proc |-> cfg.svc[s].proc]
                     ELSE [k |-> "svc", id |-> s]
Chain(cfg, s, proc) ==
  LET ms == cfg.svc[s].mods
      src == [i \in 1..Len(SelectSeq(ms, LAMBDA m : m.k \in Client \cup {"otel"})) |->
                ClientOf(SelectSeq(ms, LAMBDA m : m.k \in Client \cup {"otel"})[i])]
      rpc == SelectSeq(ms, LAMBDA m : m.k \in {"grpc", "http"})
      dst == Rev([i \in 1..Len(SelectSeq(ms, LAMBDA m : m.k \in Server \cup {"otel"})) |->
                ServerOf(SelectSeq(ms, LAMBDA m : m.k \in Server \cup {"otel"})[i])])
      all == src \o rpc \o dst IN
  [i \in 1..Len(all) |-> El(cfg, s, all[i], proc)] \o << Handler(cfg, s) >>

Start == [comps |-> {}, uid |-> 1, obj |-> << >>, cancelled |-> {}, spans |-> << >>]
Obj(S, id, default) == IF id \in DOMAIN S.obj THEN S.obj[id] ELSE default
SetObj(S, id, v) == [S EXCEPT !.obj = (id :> v) @@ @]
Replace(S, x, y) == [S EXCEPT !.comps = (@ \ {x}) \cup {y}]

Never == 2000000000
NewComp(cfg, c, root, arg, m, proc, s, ts, dl, sp) ==
  [c |-> c, arg |-> arg, root |-> root, dl |-> dl, uid |-> 0, proc |-> proc, mode |-> "down", rest |-> Chain(cfg, s, proc), frames |-> << >>,
   n |-> 0, val |-> "", err |-> "", tmin |-> ts, main |-> TRUE,
   span |-> sp, tctx |-> << >>, m |-> m]

Push(x, f) == [x EXCEPT !.frames = Append(@, f @@ [sp |-> x.span]), !.rest = Tail(@)]
Up(x, val, err) == [x EXCEPT !.mode = "up", !.val = val, !.err = err, !.rest = << >>]
Pop(x) == [x EXCEPT !.frames = Front(@), !.span = Last(x.frames).sp]
(* back down below the modifier of the last frame, not before d microseconds    *)
Again(x, d) == [x EXCEPT !.mode = "down", !.rest = Last(x.frames).rest, !.tmin = @ + d, !.span = Last(x.frames).sp,
                         !.frames = Append(Front(@), [Last(@) EXCEPT !.att = @ + 1])]

----------------------------------------------------------------------------
(* Tracing. A client that makes spans starts one below the current span and     *)
(* passes it along, one that does not passes the current span along; the server *)
(* starts one below what it was passed. Both record an error in the span that   *)
(* is current to them, and end the span that they started.                      *)
SpanId(x, k) == << x.c, x.uid, [i \in 1..Len(x.frames) |-> x.frames[i].att], k >>
NewSpan(S, x, id, parent, kind, e) ==
  [S EXCEPT !.spans = (id :> [parent |-> parent, kind |-> kind, iface |-> e.iface,
                              meth |-> IF x.m = "" THEN e.meth ELSE x.m, errs |-> 0, ended |-> FALSE, at |-> {}]) @@ @]
RecordErr(S, id, err) ==
  IF id = << >> \/ err = "" THEN S
  ELSE IF S.spans[id].ended THEN S ELSE [S EXCEPT !.spans[id].errs = @ + 1]
EndSpan(S, id) == [S EXCEPT !.spans[id].ended = TRUE]
Enters(S, id, c, n) == IF id = << >> THEN S ELSE [S EXCEPT !.spans[id].at = @ \cup {<<c, n>>}]

(* A forest of spans, without their names: what every span is, and how many there *)
(* are of every kind below it.                                                  *)
Bag(ps) == LET forms == {p[2] : p \in ps} IN [f \in forms |-> Cardinality({p \in ps : p[2] = f})]
RECURSIVE Tree(_, _)
Tree(sp, i) == [kind |-> sp[i].kind, iface |-> sp[i].iface, meth |-> sp[i].meth, errs |-> sp[i].errs, at |-> sp[i].at,
                kids |-> Bag({<<j, Tree(sp, j)>> : j \in {k \in DOMAIN sp : sp[k].parent = i}})]
Forest(sp, none) == Bag({<<j, Tree(sp, j)>> : j \in {k \in DOMAIN sp : sp[k].parent = none}})

----------------------------------------------------------------------------
(* The context below the first j modifiers that x has passed may expire from the  *)
(* earliest deadline of a timeout among them on, and that given to the call. HTTP *)
(* does not take it along.                                                       *)
RECURSIVE Deadline(_, _)
Deadline(x, j) == IF j = 0 THEN x.dl
                  ELSE IF x.frames[j].k = "http" THEN Never
                  ELSE IF x.frames[j].k = "timeout" THEN Min(x.frames[j].start + x.frames[j].el.us, Deadline(x, j - 1))
                  ELSE Deadline(x, j - 1)
Expired(S, x, now) == x.root \in S.cancelled \/ now >= Deadline(x, Len(x.frames))
MayExpire(S, x) == Expired(S, x, Never - 1)
(* Steps that concern the computation alone: at most one successor, taken at    *)
(* once. Returning a pooled client early only makes more possible.              *)
Local(S, x) ==
  IF x.mode = "down" THEN
    LET e == Head(x.rest) IN
    CASE e.k \in {"retry", "retryfd", "retryeb", "retryrl"} ->
            {Replace(S, x, Push(x, [k |-> e.k, el |-> e, att |-> 1, rest |-> Tail(x.rest), start |-> 0, d |-> IF e.k = "retryeb" THEN e.us ELSE 0]))}
      [] e.k = "retrytb" ->
            {Replace(S, x, Push(x, [k |-> e.k, el |-> e, att |-> 1, rest |-> Tail(x.rest), start |-> 0, d |-> 0]))}
      [] e.k \in {"timeout", "grpc"} ->
            {Replace(S, x, [Push(x, [k |-> "timeout", el |-> e, att |-> 1, rest |-> << >>, start |-> x.tmin, d |-> 0])
                              EXCEPT !.span = IF e.k = "grpc" THEN << >> ELSE @])}
      [] e.k = "http" ->
            {Replace(S, x, [Push(x, [k |-> "http", el |-> e, att |-> 1, rest |-> << >>, start |-> 0, d |-> 0]) EXCEPT !.span = << >>])}
      [] e.k = "otelc" ->
            LET id == IF e.own THEN SpanId(x, "c") ELSE x.span
                y == [Push(x, [k |-> "otelc", el |-> e, att |-> 1, rest |-> << >>, start |-> 0, d |-> 0]) EXCEPT !.span = id, !.tctx = id] IN
            {Replace(IF e.own THEN NewSpan(S, x, id, x.span, "client", e) ELSE S, x, y)}
      [] e.k = "otels" ->
            LET id == SpanId(x, "s")
                y == [Push(x, [k |-> "otels", el |-> e, att |-> 1, rest |-> << >>, start |-> 0, d |-> 0]) EXCEPT !.span = id] IN
            {Replace(NewSpan(S, x, id, x.tctx, "server", e), x, y)}
      [] e.k = "latency" -> {Replace(S, x, [x EXCEPT !.tmin = @ + e.us, !.rest = Tail(@)])}
      [] e.k \in {"health", "delay"} -> {Replace(S, x, [x EXCEPT !.rest = Tail(@)])}
      [] e.k = "fault" /\ e.n = 0 -> {Replace(S, x, [x EXCEPT !.rest = Tail(@)])}
      [] e.k = "fault" /\ e.n = 100 -> {Replace(S, x, Up(x, "", "FAULT"))}
      [] OTHER -> {}
  ELSE IF x.mode = "up" /\ x.frames = << >> THEN
    IF x.main THEN {} ELSE {[S EXCEPT !.comps = @ \ {x}]}
  ELSE IF x.mode = "up" THEN
    LET f == Last(x.frames) IN
    CASE f.k = "http" ->      \* all that is left of an error is that there was one
            {Replace(S, x, [Pop(x) EXCEPT !.err = IF x.err = "" THEN "" ELSE "HTTP500"])}
      [] f.k = "otelc" ->
            LET T == RecordErr(S, x.span, x.err) IN {Replace(IF f.el.own THEN EndSpan(T, x.span) ELSE T, x, Pop(x))}
      [] f.k = "otels" -> {Replace(EndSpan(RecordErr(S, x.span, x.err), x.span), x, Pop(x))}
      [] f.k = "pool" -> {Replace(SetObj(S, f.el.id, Obj(S, f.el.id, 0) - 1), x, Pop(x))}
      [] f.k \in {"retry", "retryfd", "retryeb", "retryrl"} /\ x.err = "" -> {Replace(S, x, Pop(x))}
      [] f.k = "retry" /\ ~MayExpire(S, x) ->
            {Replace(S, x, IF f.att < f.el.n THEN Again(x, 0) ELSE Pop(x))}
      [] f.k = "retryfd" /\ ~MayExpire(S, x) ->
            {Replace(S, x, IF f.att < f.el.n THEN Again(x, f.el.us) ELSE Pop(x))}
      [] f.k = "retryrl" /\ f.att >= f.el.n -> {Replace(S, x, Pop(x))}
      [] f.k = "retryeb" /\ f.d >= f.el.limit -> {Replace(S, x, Pop(x))}
      [] f.k = "retrytb" /\ x.err = "" /\ f.att = 1 -> {Replace(S, x, Pop(x))}
      [] f.k = "retrytb" /\ x.err /= "" /\ f.att = 2 -> {Replace(S, x, Pop(x))}
      [] OTHER -> {}
  ELSE {}

RECURSIVE Norm(_)
Norm(S) == LET q == {x \in S.comps : Local(S, x) /= {}} IN
           IF q = {} THEN S
           ELSE LET x == CHOOSE y \in q : TRUE IN Norm(CHOOSE T \in Local(S, x) : TRUE)

(* The other steps: those that touch the state of a modifier, or leave a choice. *)
Shared(cfg, S, x, now) ==
  IF x.mode = "down" THEN
    LET e == Head(x.rest) IN
    CASE e.k = "pool" ->
            (IF Obj(S, e.id, 0) < e.n
               THEN {Replace(SetObj(S, e.id, Obj(S, e.id, 0) + 1), x,
                             Push(x, [k |-> "pool", el |-> e, att |-> 1, rest |-> << >>, start |-> 0, d |-> 0]))} ELSE {})
            \cup (IF Expired(S, x, now) THEN {Replace(S, x, Up(x, "", "CTX"))} ELSE {})
      [] e.k = "lb" ->
            LET i == Obj(S, e.id, 0) IN
            {Replace(SetObj(S, e.id, (i + 1) % Len(e.deps)), x,
                     [x EXCEPT !.rest = Chain(cfg, e.deps[i + 1], e.proc), !.proc = e.proc])}
      [] e.k = "fault" -> {Replace(S, x, [x EXCEPT !.rest = Tail(@)]), Replace(S, x, Up(x, "", "FAULT"))}
      [] e.k = "cb" ->
            LET o == Obj(S, e.id, [t |-> 0, f |-> 0, open |-> FALSE]) IN
            IF o.open THEN {Replace(S, x, Up(x, "", "CBOPEN"))}
            ELSE {Replace(S, x, Push(x, [k |-> "cb", el |-> e, att |-> 1, rest |-> << >>, start |-> 0, d |-> 0]))}
      [] OTHER -> {}
  ELSE IF x.mode = "up" /\ x.frames /= << >> THEN
    LET f == Last(x.frames) IN
    CASE f.k = "timeout" -> {Replace(S, x, Pop(x))}    \* or it fires after all
      [] f.k \in {"retry", "retryfd"} ->      \* cancelled: may stop or go on
            (IF Expired(S, x, now) THEN {Replace(S, x, Pop(x)), Replace(S, x, [Pop(x) EXCEPT !.err = "CTX"])}
             ELSE IF f.att >= f.el.n THEN {Replace(S, x, Pop(x))} ELSE {})
            \cup (IF f.att < f.el.n THEN {Replace(S, x, Again(x, IF f.k = "retryfd" THEN f.el.us ELSE 0))} ELSE {})
      [] f.k = "retryeb" ->
            {Replace(S, x, LET y == Again(x, IF f.el.b THEN f.d \div 2 ELSE f.d) IN
                           [y EXCEPT !.frames[Len(y.frames)].d = Min(2 * f.d, f.el.limit)])}
            \cup (IF Expired(S, x, now) THEN {Replace(S, x, [Pop(x) EXCEPT !.err = "CTX"])} ELSE {})
      [] f.k = "retryrl" ->
            \* By now at most one burst and what has been refilled since were given
            \* out. And what there was after the last one (taken at last or later)
            \* has been refilled, but not above one burst. In thousandths.
            LET o == Obj(S, f.el.id, [n |-> 0, tok |-> 1000 * f.el.m, last |-> 0])
                tok == Min(1000 * f.el.m, o.tok + f.el.m * (1 + (now - o.last) \div 1000)) IN
            (IF 1000 * (o.n + 1) <= 1000 * f.el.m + f.el.m * (now \div 1000 + 1) /\ tok >= 1000
               THEN {Replace(SetObj(S, f.el.id, [n |-> o.n + 1, tok |-> tok - 1000, last |-> x.tmin]), x, Again(x, 0))} ELSE {})
            \cup (IF Expired(S, x, now) THEN {Replace(S, x, [Pop(x) EXCEPT !.err = "CTX"])} ELSE {})
      [] f.k = "retrytb" /\ x.err /= "" ->     \* the first attempt has failed
            LET tb == Obj(S, f.el.id, f.el.cap) IN
            IF tb - f.el.cost < 1 THEN {Replace(S, x, Pop(x))}
            ELSE {Replace(SetObj(S, f.el.id, tb - f.el.cost), x, Again(x, 0))}
      [] f.k = "retrytb" /\ x.err = "" ->      \* the second one has not
            {Replace(SetObj(S, f.el.id, Min(Obj(S, f.el.id, f.el.cap) + f.el.repl, f.el.cap)), x, Pop(x))}
      [] f.k = "cb" ->
            LET o == Obj(S, f.el.id, [t |-> 0, f |-> 0, open |-> FALSE])
                t2 == o.t + 1
                f2 == o.f + (IF x.err = "" THEN 0 ELSE 1)
                \* only a failure can open it
                op == o.open \/ (x.err /= "" /\ t2 >= f.el.n /\ 100 * f2 >= f.el.m * t2) IN
            {Replace(SetObj(S, f.el.id, [t |-> t2, f |-> f2, open |-> op]), x, Pop(x))}
      [] OTHER -> {}
  ELSE {}

(* A timeout gives up waiting, at the earliest when its time is over. What it    *)
(* waited for goes on without it.                                               *)
Fire(S, x, now) ==
  UNION {
    LET f == x.frames[j] IN
    IF f.k = "timeout" /\ (now >= Deadline(x, j) \/ x.root \in S.cancelled)
      THEN {[S EXCEPT !.uid = @ + 1, !.comps = (@ \ {x})
               \cup {[Up(x, "", "TIMEOUT") EXCEPT !.frames = SubSeq(x.frames, 1, j - 1), !.span = f.sp,
                                                  !.tmin = IF x.root \in S.cancelled THEN f.start ELSE Max(Deadline(x, j), f.start)]}
               \cup {[x EXCEPT !.frames = SubSeq(@, j + 1, Len(@)), !.main = FALSE, !.uid = S.uid, !.dl = Deadline(x, j)]}]}
      ELSE {} : j \in 1..Len(x.frames)}

(* Before something is seen of the call c, only steps of c matter, and those of     *)
(* computations that touch, now or later, what others can see: the others are as *)
(* possible later. (A circuit breaker that never sees enough calls is no state.) *)
Touches(e) == e.k \in {"pool", "lb", "retryrl", "retrytb"} \/ (e.k = "cb" /\ e.n < 1000)
TouchesAny(q) == \E i \in 1..Len(q) : Touches(q[i])
Matters(x) == \/ TouchesAny(x.rest)
              \/ \E j \in 1..Len(x.frames) : Touches(x.frames[j].el) \/ TouchesAny(x.frames[j].rest)
Internal(cfg, S, now, c) ==
  UNION {{Norm(T) : T \in Shared(cfg, S, x, now) \cup Fire(S, x, now)} : x \in {y \in S.comps : y.c = c \/ Matters(y)}}

----------------------------------------------------------------------------
(* What can be seen.                                                            *)
(* From the n-th invocation of the call parent.                                  *)
DoCall(cfg, S, c, root, arg, m, from, dep, ts, parent, n) ==
  LET ps == {x \in S.comps : x.c = parent /\ x.mode = "in" /\ x.n = n}
      dl == IF ps = {} THEN Never ELSE LET x == CHOOSE y \in ps : TRUE IN Deadline(x, Len(x.frames))
      sp == IF ps = {} THEN << >> ELSE LET x == CHOOSE y \in ps : TRUE IN x.span IN
  Norm([S EXCEPT !.comps = @ \cup {NewComp(cfg, c, root, arg, m, cfg.svc[from].proc, cfg.svc[from].deps[dep], ts, dl, sp)}])
DoEnter(S, c, arg, inst, n, ts, traced) ==
  {Norm(Replace(Enters(S, x.span, c, n), x, [x EXCEPT !.mode = "in", !.n = n, !.tmin = Max(@, ts)])) :
     x \in {y \in S.comps : y.c = c /\ y.mode = "down" /\ y.arg = arg /\ Head(y.rest).k = "svc" /\ Head(y.rest).id = inst /\ y.tmin <= ts
                              /\ traced = (y.span /= << >>)}}
(* late: gave up waiting for the end of the call, which nobody was to wait for any  *)
(* more; never: gave up waiting for the end of its context.                      *)
DoExit(S, c, n, val, err, ts, late, never) ==
  IF never THEN {} ELSE
  {Norm(Replace(S, x, [Up(x, val, err) EXCEPT !.tmin = Max(@, ts)])) :
     x \in {y \in S.comps : y.c = c /\ y.mode = "in" /\ y.n = n /\ y.tmin <= ts /\ (late => ~y.main)}}
DoRet(S, c, val, err, ts) ==
  {[S EXCEPT !.comps = @ \ {x}] :
     x \in {y \in S.comps : y.c = c /\ y.main /\ y.mode = "up" /\ y.frames = << >>
                              /\ (y.err = err \/ (y.err = "HTTP500" /\ err /= ""))
                              /\ (err = "" => y.val = val) /\ y.tmin <= ts}}
DoCancel(S, c) == Norm([S EXCEPT !.cancelled = @ \cup {c}])
=============================================================================
