------------------------------- MODULE NsBuild -------------------------------
(* Namespaces of a generated process: which node a name stands for, when it is  *)
(* built and from what.                                                         *)
(* A case is a record                                                           *)
(*   b     sequence of namespace builders                                       *)
(*           [defs: name -> definition, req, opt, inst: sequences of names]     *)
(*   flags sequence of [name, val] given on the command line                    *)
(*   env   sequence of [var, val] (var: its characters)                         *)
(*   chars name -> its characters                                               *)
(* A definition is [kind, deps, fails, val, child, get]:                        *)
(*   "node"  gets the nodes deps in order and is then built; the first `fails`  *)
(*           attempts to build it fail                                          *)
(*   "value" is the string val                                                  *)
(*   "child" makes a namespace from builder `child` below this one and takes    *)
(*           the node `get` of it                                               *)
(*   "unset" an optional argument that was not given: an error                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {Lower[i] : i \in 1..26} \cup {Upper[i] : i \in 1..26}
Plain(c) == c \in Letters \cup Digit \cup {" "}
Up(c) == IF \E i \in 1..26 : Lower[i] = c THEN Upper[CHOOSE i \in 1..26 : Lower[i] = c] ELSE c

\* every run of other characters becomes one underscore
RECURSIVE Clean(_, _)
Clean(s, acc) ==
  IF s = << >> THEN acc
  ELSE IF Plain(Head(s)) THEN Clean(Tail(s), Append(acc, Head(s)))
  ELSE Clean(Tail(s), IF acc # << >> /\ acc[Len(acc)] = "_" THEN acc ELSE Append(acc, "_"))
RECURSIVE DropDigits(_)
DropDigits(s) == IF s # << >> /\ Head(s) \in Digit THEN DropDigits(Tail(s)) ELSE s
EnvVar(s) == LET c == DropDigits(Clean(s, << >>)) IN [i \in 1..Len(c) |-> Up(c[i])]

Range(s) == {s[i] : i \in 1..Len(s)}
Lookup(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN s[CHOOSE i \in 1..Len(s) : P(s[i])].val ELSE ""

Value(v) == [kind |-> "value", deps |-> << >>, fails |-> 0, val |-> v, child |-> 0, get |-> ""]
Unset    == [Value("") EXCEPT !.kind = "unset"]

(* What the program was given for an argument: its command line first.          *)
Given(C, name) ==
  LET f == Lookup(C.flags, LAMBDA x : x.name = name)
      e == Lookup(C.env, LAMBDA x : x.var = EnvVar(C.chars[name])) IN
  IF f # "" THEN f ELSE e

(* The definitions of the process's namespace: the arguments that were not set  *)
(* by the program come from its command line or environment.                    *)
RootDefs(C, B) ==
  LET args == {n \in Range(B.req) \cup Range(B.opt) : n \notin DOMAIN B.defs /\ (Given(C, n) # "" \/ n \in Range(B.opt))} IN
  [n \in DOMAIN B.defs \cup args |->
     IF n \in DOMAIN B.defs THEN B.defs[n]
     ELSE IF Given(C, n) # "" THEN Value(Given(C, n)) ELSE Unset]

(* State: ns, the namespaces made so far [b, parent, defs, built], tries,       *)
(* <<builder, name>> -> number of times its constructor ran, and log, what the  *)
(* constructors saw.                                                            *)
Empty == [ns |-> << >>, tries |-> << >>, log |-> << >>]
Fail(S) == [S |-> S, ok |-> FALSE, v |-> ""]
Good(S, v) == [S |-> S, ok |-> TRUE, v |-> v]

RECURSIVE Has(_, _, _)
Has(S, n, name) == n # 0 /\ (name \in DOMAIN S.ns[n].defs \/ Has(S, S.ns[n].parent, name))

Tries(S, k) == IF k \in DOMAIN S.tries THEN S.tries[k] ELSE 0

RECURSIVE Get(_, _, _, _), Collect(_, _, _, _, _), NewNs(_, _, _, _), InstAll(_, _, _, _)

(* The nodes ds of namespace n, up to the first that fails.                     *)
Collect(C, S, n, ds, acc) ==
  IF ds = << >> THEN Good(S, acc)
  ELSE LET r == Get(C, S, n, Head(ds)) IN
       IF r.ok THEN Collect(C, r.S, n, Tail(ds), Append(acc, r.v)) ELSE [r EXCEPT !.v = acc]

Get(C, S, n, name) ==
  IF n = 0 THEN Fail(S)
  ELSE LET N == S.ns[n] IN
  IF name \notin DOMAIN N.defs THEN Get(C, S, N.parent, name)
  ELSE IF name \in DOMAIN N.built THEN Good(S, N.built[name])
  ELSE LET d == N.defs[name]
           Built(r) == IF r.ok THEN Good([r.S EXCEPT !.ns[n].built = (name :> r.v) @@ @], r.v) ELSE r
       IN
  CASE d.kind = "value" -> Built(Good(S, d.val))
    [] d.kind = "unset" -> Fail(S)
    [] OTHER ->
         LET key == <<N.b, name>>
             k == Tries(S, key) + 1
             S1 == [S EXCEPT !.tries = (key :> k) @@ @]
             tag == ToString(N.b) \o "." \o name \o "#" \o ToString(k)
             entry(args, ok) == [at |-> ToString(N.b) \o "." \o name, k |-> k, args |-> args, ok |-> ok]
             Log(T, args, ok) == [T EXCEPT !.log = Append(@, entry(args, ok))]
         IN IF d.kind = "node"
            THEN LET r == Collect(C, S1, n, d.deps, << >>)
                     ok == r.ok /\ k > d.fails IN
                 IF ok THEN Built(Good(Log(r.S, r.v, TRUE), tag)) ELSE Fail(Log(r.S, r.v, FALSE))
            ELSE LET m == NewNs(C, S1, d.child, n) IN
                 IF ~m.ok THEN Fail(Log(m.S, << >>, FALSE))
                 ELSE LET r == Get(C, m.S, m.v, d.get) IN
                      IF r.ok THEN Built(Good(Log(r.S, <<r.v>>, TRUE), tag)) ELSE Fail(Log(r.S, << >>, FALSE))

InstAll(C, S, n, names) ==
  IF names = << >> THEN Good(S, n)
  ELSE LET r == Get(C, S, n, Head(names)) IN
       IF r.ok THEN InstAll(C, r.S, n, Tail(names)) ELSE [r EXCEPT !.v = n]

(* A new namespace of builder b; parent 0: the process's own.                   *)
NewNs(C, S, b, parent) ==
  LET B == C.b[b]
      defs == IF parent = 0 THEN RootDefs(C, B) ELSE B.defs
      missing == {r \in Range(B.req) : r \notin DOMAIN defs /\ ~Has(S, parent, r)} IN
  IF missing # {} THEN [S |-> S, ok |-> FALSE, v |-> 0]
  ELSE InstAll(C, [S EXCEPT !.ns = Append(@, [b |-> b, parent |-> parent, defs |-> defs, built |-> << >>])],
               Len(S.ns) + 1, B.inst)
=============================================================================
