----------------------------- MODULE NoSqlTrace -----------------------------
(* Histories of one collection. The observed result is part of the operation    *)
(* (op.got); a call is accepted iff the specification agrees with it.           *)
(* State: the collection and the results held by open cursors. With mongo, the  *)
(* collection is one of a MongoDB server: _id are unique, and projections are    *)
(* done. Operations on collections where the server fails are "fails".           *)
EXTENDS LinTrace, NoSql

\* ord: the order of the fields of all documents is known
Q == [c |-> << >>, cur |-> << >>, ord |-> TRUE, mongo |-> FALSE]
Agree(st2, ok) == IF ok THEN {[st |-> st2, res |-> [ok |-> TRUE]]} ELSE {}

\* the collection as dumped after the call, if it was
Dumped(s, op, c) == op.got.dumped => SameSeq(op.got.coll, c, s.ord)
Quiet(op) == ~op.got.err
\* a generated _id is a fresh one the driver reports
Fresh(c, ids) == \A i \in 1..Len(ids) : /\ \A j \in 1..Len(c) : ~Same(c[j].d["_id"], ids[i])
                                        /\ \A j \in 1..Len(ids) : i # j => ~Same(ids[j], ids[i])

Dups(c, ds) == {i \in 1..Len(ds) : HasId(ds[i]) /\ \/ \E j \in 1..Len(c) : Same(c[j].d["_id"], ds[i].d["_id"])
                                                   \/ \E j \in 1..(i-1) : HasId(ds[j]) /\ Same(ds[j].d["_id"], ds[i].d["_id"])}
Project(d, names) == LET ks == {names[i] : i \in 1..Len(names)} \cup {"_id"} IN
                     IF names = << >> THEN d
                     ELSE [d EXCEPT !.d = [k \in DOMAIN @ \cap ks |-> @[k]], !.o = SelectSeq(@, LAMBDA k : k \in ks)]
Changed(c, c2) == Cardinality({i \in 1..Len(c) : ~(Same(c[i], c2[i]) /\ Order(c[i], c2[i]))})

\* how many documents were updated; a server may leave out those that the update does not change
Counted(s, op, o, c) == op.got.n = o.n \/ (s.mongo /\ op.got.n \in Changed(c, o.c)..o.n)

NoSteps(s0, t, op) ==
  LET s == IF op.docs # << >> /\ ~op.ordered THEN [s0 EXCEPT !.ord = FALSE] ELSE s0
      c == s.c IN
  CASE op.op = "fails" -> Agree(s, op.got.err)
    [] op.op = "insert" /\ s.mongo /\ Dups(c, op.docs) # {} ->
         LET c2 == c \o SubSeq(op.docs, 1, First(Dups(c, op.docs)) - 1) IN
         Agree([s EXCEPT !.c = c2], op.got.err /\ Dumped(s, op, c2))
    [] op.op = "insert" /\ ~(s.mongo /\ Dups(c, op.docs) # {}) ->
         IF op.got.err THEN {}
         ELSE LET c2 == c \o [i \in 1..Len(op.docs) |-> WithId(op.docs[i], op.got.ids[i])] IN
              Agree([s EXCEPT !.c = c2], Fresh(c, op.got.ids) /\ Dumped(s, op, c2))
    [] op.op \in {"find", "findone"} ->
         IF ~Supported(op.q) THEN Agree(s, op.got.err /\ Dumped(s, op, c))
         ELSE LET found == Found(c, op.q)
                  all == IF s.mongo THEN [i \in 1..Len(found) |-> Project(found[i], op.proj)] ELSE found
                  r == IF op.op = "findone" THEN SubSeq(all, 1, Least(1, Len(all))) ELSE all IN
              IF op.hold > 0 THEN Agree([s EXCEPT !.cur = (op.hold :> r) @@ @], Quiet(op) /\ Dumped(s, op, c))
              ELSE Agree(s, Quiet(op) /\ SameSeq(op.got.docs, r, s.ord /\ op.ordered) /\ Dumped(s, op, c))
    \* reading an open cursor: the documents as they were found; One gives the first
    [] op.op = "read" -> Agree(s, Quiet(op) /\ SameSeq(op.got.docs, s.cur[op.hold], s.ord /\ op.ordered) /\ Dumped(s, op, c))
    [] op.op = "one"  -> LET r == s.cur[op.hold] IN
                         Agree(s, Quiet(op) /\ SameSeq(op.got.docs, SubSeq(r, 1, Least(1, Len(r))), s.ord /\ op.ordered) /\ Dumped(s, op, c))
    \* the caller changes values it inserted or read
    [] op.op = "scribble" -> Agree(s, Dumped(s, op, c))
    [] op.op \in {"updateOne", "updateMany"} ->
         IF ~Supported(op.q) \/ op.bad THEN Agree(s, op.got.err /\ Dumped(s, op, c))
         ELSE LET m == MatchAt(c, op.q)
                  ps == IF op.op = "updateOne" /\ m # {} THEN {First(m)} ELSE m IN
              UNION {IF o.n = -1 THEN Agree([s EXCEPT !.c = op.got.coll], op.got.dumped)
                     ELSE Agree([s EXCEPT !.c = o.c], /\ op.got.err = o.err
                                                      /\ (~o.err => Counted(s, op, o, c))
                                                      /\ Dumped(s, op, o.c)) : o \in UpdateAt(c, ps, op.us, 0)}
    [] op.op \in {"deleteOne", "deleteMany"} ->
         IF ~Supported(op.q) THEN Agree(s, op.got.err /\ Dumped(s, op, c))
         ELSE LET m == MatchAt(c, op.q)
                  c2 == RemoveAt(c, IF op.op = "deleteOne" /\ m # {} THEN {First(m)} ELSE m) IN
              Agree([s EXCEPT !.c = c2], Quiet(op) /\ Dumped(s, op, c2))
    [] op.op \in {"replaceOne", "replaceMany"} ->
         IF ~Supported(op.q) THEN Agree(s, op.got.err /\ Dumped(s, op, c))
         ELSE LET m == MatchAt(c, op.q)
                  c2 == ReplaceAt(c, m, op.docs) IN
              Agree([s EXCEPT !.c = c2], Quiet(op) /\ op.got.n = Least(Cardinality(m), Len(op.docs)) /\ Dumped(s, op, c2))
    [] op.op = "upsert" ->
         IF ~Supported(op.q) THEN Agree(s, op.got.err /\ Dumped(s, op, c))
         ELSE LET m == MatchAt(c, op.q)
                  c2 == IF m # {} THEN ReplaceAt(c, {First(m)}, op.docs)
                        ELSE Append(c, WithId(op.docs[1], op.got.ids[1])) IN
              Agree([s EXCEPT !.c = c2], Quiet(op) /\ (op.got.n = 1 <=> m # {}) /\ Dumped(s, op, c2))

TInit(ev) == [Q EXCEPT !.mongo = ev.mongo]
TSteps(s, t, op) == NoSteps(s, t, op)
TEnv(s, ev) == {}
=============================================================================
