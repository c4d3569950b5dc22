-------------------------------- MODULE NoSql -------------------------------
(* The document store: what a filter matches, what an update does, and what a   *)
(* collection is. A value is a record [t, s, n, d, o, a]:                       *)
(*   t "z" null | "b" boolean (n = 0 or 1) | "i" integer (n is twice the number)*)
(*     "f" float (n is twice the number) | "s" string (s its characters)        *)
(*     "o" object id (s its digits)                                             *)
(*     "d" document (d maps field names to values, o is their order)            *)
(*     "a" array (a its elements)                                               *)
(*     "miss" nothing there (only inside this module)                           *)
(* A path is a sequence of [k |-> field name, i |-> -1] or [k |-> "", i |-> n]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Num(v) == v.t \in {"i", "f"}

RECURSIVE Same(_, _)
Same(a, b) ==
  IF Num(a) /\ Num(b) THEN a.n = b.n
  ELSE /\ a.t = b.t
       /\ CASE a.t \in {"s", "o"} -> a.s = b.s
            [] a.t = "b" -> a.n = b.n
            [] a.t = "d" -> /\ DOMAIN a.d = DOMAIN b.d
                            /\ \A k \in DOMAIN a.d : Same(a.d[k], b.d[k])
            [] a.t = "a" -> /\ Len(a.a) = Len(b.a)
                            /\ \A i \in 1..Len(a.a) : Same(a.a[i], b.a[i])
            [] OTHER -> TRUE

(* Queries do not look at the order of fields, but it is kept.                   *)
RECURSIVE Order(_, _)
Order(a, b) == CASE a.t = "d" -> a.o = b.o /\ \A k \in DOMAIN a.d : Order(a.d[k], b.d[k])
                 [] a.t = "a" -> \A i \in 1..Len(a.a) : Order(a.a[i], b.a[i])
                 [] OTHER -> TRUE

(* ------------------------------------------------------------- queries ----- *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

(* The values a path leads to: field names reach into every document of an      *)
(* array, numbers pick an element.                                              *)
RECURSIVE Vals(_, _)
Vals(v, p) ==
  IF p = << >> THEN <<v>>
  ELSE LET h == Head(p) IN
       CASE v.t = "d" -> IF h.i < 0 /\ h.k \in DOMAIN v.d THEN Vals(v.d[h.k], Tail(p)) ELSE << >>
         [] v.t = "a" -> IF h.i >= 0
                           THEN (IF h.i < Len(v.a) THEN Vals(v.a[h.i + 1], Tail(p)) ELSE << >>)
                           ELSE Flat([j \in 1..Len(v.a) |-> IF v.a[j].t = "d" THEN Vals(v.a[j], p) ELSE << >>])
         [] OTHER -> << >>

Elems(r) == IF r.t = "a" THEN r.a ELSE <<r>>
(* A condition holds of a field if it holds of its value, or of an element.     *)
Some(vs, P(_)) == \E i \in 1..Len(vs) : \E j \in 1..Len(Elems(vs[i])) : P(Elems(vs[i])[j])

EqVal(vs, x) ==
  CASE x.t = "a" -> (\E i \in 1..Len(vs) : Same(vs[i], x)) \/ Some(vs, LAMBDA e : Same(e, x))
    [] x.t = "z" -> vs = << >> \/ Some(vs, LAMBDA e : e.t = "z")
    [] OTHER     -> Some(vs, LAMBDA e : Same(e, x))

Ends(s, x)   == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Begins(s, x) == Len(x) <= Len(s) /\ SubSeq(s, 1, Len(x)) = x
Within(s, x) == \E i \in 0..Len(s) : Begins(SubSeq(s, i + 1, Len(s)), x)
(* mode 0: anywhere, 1: at the start, 2: at the end, 3: all of it *)
Regex(s, x, mode) == CASE mode = 0 -> Within(s, x) [] mode = 1 -> Begins(s, x)
                       [] mode = 2 -> Ends(s, x)   [] mode = 3 -> s = x

(* A filter is [f, p, v, fs]: kind, path, argument values, sub-filters.         *)
RECURSIVE Match(_, _)
Match(doc, q) ==
  LET vs == Vals(doc, q.p) IN
  CASE q.f = "and"  -> \A i \in 1..Len(q.fs) : Match(doc, q.fs[i])
    [] q.f = "or"   -> \E i \in 1..Len(q.fs) : Match(doc, q.fs[i])
    [] q.f = "nor"  -> ~ \E i \in 1..Len(q.fs) : Match(doc, q.fs[i])
    [] q.f = "not"  -> ~ Match(doc, q.fs[1])
    [] q.f = "eq"   -> EqVal(vs, q.v[1])
    [] q.f = "ne"   -> ~ EqVal(vs, q.v[1])
    [] q.f = "gt"   -> Some(vs, LAMBDA e : Num(e) /\ e.n > q.v[1].n)
    [] q.f = "gte"  -> Some(vs, LAMBDA e : Num(e) /\ e.n >= q.v[1].n)
    [] q.f = "lt"   -> Some(vs, LAMBDA e : Num(e) /\ e.n < q.v[1].n)
    [] q.f = "lte"  -> Some(vs, LAMBDA e : Num(e) /\ e.n <= q.v[1].n)
    [] q.f = "in"   -> \E i \in 1..Len(q.v) : EqVal(vs, q.v[i])
    [] q.f = "exists"   -> vs # << >>
    [] q.f = "missing"  -> vs = << >>
    [] q.f = "all"  -> q.v # << >> /\ \A i \in 1..Len(q.v) : EqVal(vs, q.v[i])
    [] q.f = "elemMatch" -> \E i \in 1..Len(vs) : vs[i].t = "a" /\ \E j \in 1..Len(vs[i].a) :
                               vs[i].a[j].t = "d" /\ \A k \in 1..Len(q.fs) : Match(vs[i].a[j], q.fs[k])
    [] q.f = "regex" -> Some(vs, LAMBDA e : e.t = "s" /\ Regex(e.s, q.v[1].s, q.v[1].n))

RECURSIVE Supported(_)
Supported(q) == q.f # "bad" /\ \A i \in 1..Len(q.fs) : Supported(q.fs[i])

(* ------------------------------------------------------------- updates ----- *)
Base  == [t |-> "z", s |-> << >>, n |-> 0, d |-> << >>, o |-> << >>, a |-> << >>]
Null  == Base
Miss  == [Base EXCEPT !.t = "miss"]
Gone  == [Base EXCEPT !.t = "gone"]      \* the value is removed
Arr(a) == [Base EXCEPT !.t = "a", !.a = a]
(* Outcomes: "ok" with the new value; "err"; "noop", unchanged with or without  *)
(* an error; "any", not specified.                                              *)
Ok(v)  == [k |-> "ok", v |-> v]
Bad    == [k |-> "err", v |-> Miss]
Noop   == [k |-> "noop", v |-> Miss]
AnyOut == [k |-> "any", v |-> Miss]

Removes(u) == u.op \in {"unset", "pull"}
Pulled(u, e) == IF u.q # << >> THEN e.t = "d" /\ \A i \in 1..Len(u.q) : Match(e, u.q[i]) ELSE Same(e, u.v)

Leaf(v, u) ==
  CASE u.op = "set"   -> Ok(u.v)
    [] u.op = "unset" -> IF v.t = "miss" THEN Ok(Miss) ELSE Ok(Gone)
    [] u.op = "inc"   -> CASE v.t = "miss" -> Ok(u.v)
                           [] Num(v)       -> Ok([v EXCEPT !.n = @ + u.v.n])
                           [] v.t = "z"    -> AnyOut
                           [] OTHER        -> Bad
    [] u.op = "push"  -> CASE v.t = "miss" -> Ok(Arr(<<u.v>>))
                           [] v.t = "a"    -> Ok(Arr(Append(v.a, u.v)))
                           [] v.t = "z"    -> AnyOut
                           [] OTHER        -> Bad
    [] u.op = "addToSet" -> CASE v.t = "miss" -> Ok(Arr(<<u.v>>))
                              [] v.t = "a"    -> Ok(IF \E i \in 1..Len(v.a) : Same(v.a[i], u.v) THEN v ELSE Arr(Append(v.a, u.v)))
                              [] v.t = "z"    -> AnyOut
                              [] OTHER        -> Bad
    [] u.op = "pull"  -> CASE v.t = "miss" -> Ok(Miss)
                           [] v.t = "a"    -> Ok(Arr(SelectSeq(v.a, LAMBDA e : ~Pulled(u, e))))
                           [] v.t = "z"    -> AnyOut
                           [] OTHER        -> Bad

Pad(a, n) == a \o [i \in 1..(IF n > Len(a) THEN n - Len(a) ELSE 0) |-> Null]
DocPut(v, k, x) == [v EXCEPT !.t = "d", !.d = (k :> x) @@ @, !.o = IF k \in DOMAIN v.d THEN @ ELSE Append(@, k)]
DocDel(v, k) == [v EXCEPT !.d = [x \in DOMAIN @ \ {k} |-> @[x]], !.o = SelectSeq(@, LAMBDA x : x # k)]

RECURSIVE Upd(_, _, _)
Upd(v, p, u) ==
  IF p = << >> THEN Leaf(v, u)
  ELSE LET h == Head(p) IN
  CASE v.t = "z" -> AnyOut
    [] h.i < 0 /\ v.t \in {"d", "miss"} ->
         LET has == v.t = "d" /\ h.k \in DOMAIN v.d
             r == Upd(IF has THEN v.d[h.k] ELSE Miss, Tail(p), u) IN
         IF ~has /\ Removes(u) THEN Ok(v)
         ELSE IF r.k # "ok" THEN r
         ELSE IF r.v.t = "gone" THEN Ok(DocDel(v, h.k))
         ELSE Ok(DocPut(IF v.t = "d" THEN v ELSE Base, h.k, r.v))
    [] h.i >= 0 /\ v.t = "a" ->
         IF h.i >= Len(v.a) /\ Removes(u) THEN Ok(v)
         ELSE LET r == Upd(IF h.i < Len(v.a) THEN v.a[h.i + 1] ELSE Miss, Tail(p), u) IN
              IF r.k # "ok" THEN r
              ELSE Ok(Arr([Pad(v.a, h.i + 1) EXCEPT ![h.i + 1] = IF r.v.t = "gone" THEN Null ELSE r.v]))
    [] h.i >= 0 /\ v.t = "miss" -> IF Removes(u) THEN Ok(v) ELSE AnyOut
    [] OTHER -> IF Removes(u) THEN Noop ELSE Bad

(* One document under a sequence of operators: all of them or none.             *)
RECURSIVE UpdAll(_, _)
UpdAll(v, us) == IF us = << >> THEN Ok(v)
                 ELSE LET r == Upd(v, Head(us).p, Head(us)) IN
                      IF r.k = "ok" THEN UpdAll(r.v, Tail(us)) ELSE r

(* ---------------------------------------------------------- collections ---- *)
(* A collection is a sequence of documents.                                     *)
MatchAt(c, q) == {i \in 1..Len(c) : Match(c[i], q)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Pick(c, q) == SelectSeq([i \in 1..Len(c) |-> <<i, c[i]>>], LAMBDA x : Match(x[2], q))
Found(c, q) == [j \in 1..Len(Pick(c, q)) |-> Pick(c, q)[j][2]]
RemoveAt(c, S) == LET keep == SelectSeq([i \in 1..Len(c) |-> <<i, c[i]>>], LAMBDA x : x[1] \notin S)
                  IN [j \in 1..Len(keep) |-> keep[j][2]]
SameSeq(a, b, ord) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i]) /\ (ord => Order(a[i], b[i]))

(* The outcomes of updating the documents at positions ps, one after the other, *)
(* stopping at the first error: [c, n, err] (n matters without error only).     *)
RECURSIVE UpdateAt(_, _, _, _)
UpdateAt(c, ps, us, n) ==
  IF ps = {} THEN {[c |-> c, n |-> n, err |-> FALSE]}
  ELSE LET i == First(ps)  r == UpdAll(c[i], us) IN
       CASE r.k = "ok"   -> UpdateAt([c EXCEPT ![i] = r.v], ps \ {i}, us, n + 1)
         [] r.k = "err"  -> {[c |-> c, n |-> n, err |-> TRUE]}
         [] r.k = "noop" -> {[c |-> c, n |-> n, err |-> TRUE]} \cup UpdateAt(c, ps \ {i}, us, n + 1)
         [] r.k = "any"  -> {[c |-> << >>, n |-> -1, err |-> FALSE]}

HasId(d) == "_id" \in DOMAIN d.d
WithId(d, id) == IF HasId(d) THEN d ELSE [d EXCEPT !.d = ("_id" :> id) @@ @, !.o = <<"_id">> \o @]
KeepId(d, old) == WithId(d, old.d["_id"])
RECURSIVE ReplaceAt(_, _, _)
ReplaceAt(c, ps, ds) == IF ps = {} \/ ds = << >> THEN c
                        ELSE LET i == First(ps) IN ReplaceAt([c EXCEPT ![i] = KeepId(Head(ds), @)], ps \ {i}, Tail(ds))
Least(a, b) == IF a < b THEN a ELSE b
=============================================================================
