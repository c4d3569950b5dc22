"""The properties: source of properties.jsonl and of MANIFEST.json (python3 tools/gen.py)."""
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe or [], state=state or [], na=na))


TV = "TLA+ specification checked with TLC; histories recorded from the real code validated by TLC against it"
RP = "TLA+ specification checked with TLC; TLC evaluates the specification on every recorded run of the real code"

# ------------------------------------------------------------------ runtime data structures
p("Q01", "The in-process queue is a bounded FIFO that neither loses nor duplicates items",
  "Every value whose Push reported success is delivered to exactly one successful Pop, unchanged and in the order the pushes took effect, and the queue never holds more than its capacity. "
  "A call that cannot proceed waits; once its context is cancelled it returns false without an error and without an effect. "
  "No call stays blocked while it could proceed.",
  ["schedules", "histories", "inputs"],
  "every interleaving of any number of pushing and popping threads, every point at which a context may be cancelled, every type of value",
  "The unit tests push and pop from one or two goroutines in one order; the guarantee is about all interleavings, full and empty queues and cancellations.",
  ["runtime/plugins/simplequeue/queue.go", "runtime/core/backend/queue.go"],
  [("bounded channel and select on ctx.Done", "runtime/plugins/simplequeue/queue.go Push, Pop"), ("copying to the caller's variable", "runtime/core/backend/reflect.go CopyResult")],
  TV, "Exhaustive on the model (2 producers x 2 consumers x capacity 2); every recorded history of the real queue under perturbed schedules must have a linearization in the model. Schedules are sampled, not exhausted.")

p("K01", "The in-process cache behaves like one atomic map under concurrency",
  "Concurrent Put, Get, Incr and Delete calls on the cache behave as if they ran one at a time in some order consistent with real time: Get returns the latest value or reports absence, and every Incr adds exactly one (from zero if absent) and returns the new value. "
  "Mset and Mget act as the sequence of the single-key operations in argument order; they refuse key and value lists of different lengths with an error. "
  "No use of the cache is a data race or crashes the process.",
  ["schedules", "histories", "inputs"],
  "every interleaving of any number of threads and operations, over keys present and absent and values of every type",
  "The unit tests are single-threaded; lost increments and racy reads need particular interleavings.",
  ["runtime/plugins/simplecache/cache.go", "runtime/core/backend/cache.go"],
  [("mutex around the map", "runtime/plugins/simplecache/cache.go")],
  TV + "; race detector on the same runs", "Linearizability of recorded histories under perturbed schedules plus -race runs. Schedules are sampled.")

p("K02", "The redis and memcached caches behave like one map kept by their server",
  "Calls of any number of clients of the redis and memcached plugins behave as if they ran one at a time on the data of the server they are connected to: Get returns the latest value as what it was before it was encoded, or reports absence; Incr adds exactly one (from zero if absent); Delete of an absent key is no error. "
  "Mset sets every key to its value and Mget fills exactly the variables of keys that exist, whichever and however many are given; both refuse key and value lists of different lengths. "
  "Whenever the server answers with an error, cannot be reached, or a value does not fit the caller's variable, the call reports an error; it never crashes the process.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every history of calls of any number of clients of any number of servers, over keys present and absent, values of every type, and keys on which the server fails",
  "The unit tests need running servers, so none of them is run, and they only read what they have just written.",
  ["runtime/plugins/redis/cache.go", "runtime/plugins/memcached/cache.go", "runtime/core/backend/cache.go"],
  [("encoding values and mapping replies to results", "runtime/plugins/redis/cache.go, runtime/plugins/memcached/cache.go")],
  TV + "; race detector on the same runs", "Linearizability of recorded histories of the real plugins and client libraries against stand-ins that speak the protocols of redis and memcached. The servers themselves are not decided.")

p("Q02", "The rabbitmq queue delivers every item once, whole and in its pusher's order",
  "Every value that a client of the rabbitmq plugin pushed to a queue is delivered, unchanged whatever its type, to exactly one successful Pop of a client of that queue, as long as the clients that pop go on doing so; clients that only push take nothing. "
  "Items that one client pushed come out of a client in the order in which they were pushed. "
  "A cancelled Pop returns false without an error and takes nothing; once the connection is lost, calls end, report an error and invent no items.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "every interleaving of any number of pushing and popping clients and threads of any number of queues of a broker, cancelled calls, values of every type, and a broker that goes away at any time",
  "The unit tests need a running broker, so none of them is run, and they use one client and only strings.",
  ["runtime/plugins/rabbitmq/queue.go", "runtime/core/backend/queue.go"],
  [("publishing, consuming and decoding", "runtime/plugins/rabbitmq/queue.go")],
  TV + "; race detector on the same runs", "The broker step by step is model checked to refine the specification; recorded histories of the real plugin and client library, against a stand-in that speaks AMQP, must be explained by it. One known finding: a client that has popped and stops keeps items.")

p("P01", "A client pool bounds clients in use, hands each to one caller, strands none",
  "At any time at most the configured number of clients exist, a client is held by at most one caller between its Pop and its Push, and a client that was pushed back is reused. "
  "A failed construction is reported to its caller and does not use up capacity. "
  "A caller waits only while all capacity is in use, so it gets a client once one is returned or capacity is freed; a cancelled context ends the wait with an error.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of callers, any capacity, any sequence of construction failures and cancellations",
  "The unit tests exercise a few sequential pops and pushes with a constructor that never fails.",
  ["runtime/plugins/clientpool/clientpool.go"],
  [("channel of idle clients, semaphore of slots", "runtime/plugins/clientpool/clientpool.go Pop, Push")],
  TV, "Model checked for 3 callers with failures and cancels; recorded histories must linearize, and threads still blocked at the end must be blocked in the model too.")

p("N01", "The in-memory document store's queries select exactly the matching documents",
  "For every stored document and every filter built from the supported operators, a query returns exactly the documents that match the filter by the documented MongoDB-like semantics: dotted paths reach into nested documents and arrays, a condition on an array holds if some element satisfies it, and the logical operators combine as in logic. "
  "Results come in insertion order, and FindOne returns the first of them. "
  "A filter that is not supported is refused with an error instead of matching something.",
  ["inputs"],
  "every document over nested documents, arrays, strings, numbers, booleans and null, and every filter over the supported operators, nested to any depth",
  "The tests run a fixed list of filters over a small fixed collection; the semantics is a function over an unbounded space of document/filter pairs.",
  ["runtime/plugins/simplenosqldb/query/filter.go", "runtime/plugins/simplenosqldb/query/parsefilter.go", "runtime/plugins/simplenosqldb/nosqldb.go", "runtime/core/backend/nosqldb.go"],
  [("filter parser", "runtime/plugins/simplenosqldb/query"), ("selectors and filters", "runtime/plugins/simplenosqldb/query")],
  RP, "The filter semantics is a TLA+ operator; TLC evaluates it on every generated (collection, filter) pair and must agree with what the store returned. Inputs are exhaustive up to small size and random beyond.")

p("N02", "The in-memory document store's updates change exactly what they name",
  "For every document and every update built from the supported operators, the updated document is the one the operators describe: the named fields get the described values, missing parent documents are created, and everything else keeps its value. "
  "An update is applied to exactly the documents its filter matches (the first of them for the single-document form), upserts insert when nothing matches, and the reported counts are the true ones.",
  ["inputs", "histories"],
  "every document, every filter and every update over $set, $unset, $inc, $push, $pull, $addToSet and their nesting by dotted paths",
  "The tests apply a fixed list of updates to one fixed collection.",
  ["runtime/plugins/simplenosqldb/query/update.go", "runtime/plugins/simplenosqldb/nosqldb.go"],
  [("update parser and operators", "runtime/plugins/simplenosqldb/query/update.go")],
  RP, "The update semantics is a TLA+ operator evaluated by TLC on every generated run.")

p("N03", "The in-memory document store is a faithful collection: nothing leaks or is lost",
  "Over any history of inserts, finds, updates, replacements, upserts and deletes, a collection contains exactly what a list of documents under the same operations would, in insertion order, and every reported count is the true one. "
  "Stored documents change only through the store: altering a value after it was inserted, or a value that was read, does not alter the collection. "
  "A cursor keeps the results of its query whatever happens to the collection later, and concurrent operations behave as if run one at a time.",
  ["histories", "inputs", "schedules"],
  "every sequence of operations on any number of databases and collections, every interleaving of concurrent ones, every aliasing of inserted and read values",
  "The tests check single operations on one fixed collection.",
  ["runtime/plugins/simplenosqldb/nosqldb.go", "runtime/core/backend/nosqldb.go"],
  [("collection as a slice of documents", "runtime/plugins/simplenosqldb/nosqldb.go"), ("bson round trips", "runtime/plugins/simplenosqldb/nosqldb.go")],
  RP, "Collections are modelled as sequences; TLC replays every recorded history.")

p("N04", "The mongodb plugin carries a service's operations to the server and back whole",
  "A collection of the mongodb plugin behaves, over any history of operations, as the documents that a server keeps for it: every filter, update, document and projection reaches the server as given, for the database and collection it names, and what a query found comes back complete and in order, through One and All alike. "
  "An upsert replaces the document it matches, and keeps nothing of it, or inserts a new one; counts are the server's. "
  "Whatever the server refuses, duplicates of an _id included, is reported as an error, never as success or as nothing found.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "every sequence of operations on any databases and collections, every interleaving of concurrent ones, every document, filter, update and projection, and every refusal by the server",
  "The unit tests need a running MongoDB server, so none of them is run.",
  ["runtime/plugins/mongodb/nosqldb.go", "runtime/core/backend/nosqldb.go"],
  [("translation to the driver", "runtime/plugins/mongodb/nosqldb.go")],
  RP + "; race detector on the concurrent runs", "The collection specification of N01-N03 with projections, unique ids and refusals added. The plugin and the real client library talk to a stand-in that speaks MongoDB's wire protocol over an in-memory store; TLC replays every recorded history.")

p("G01", "A running namespace builds each node once, with the right arguments",
  "In a generated process, every named instance is built at most once however often and through whichever child namespace it is asked for, a child resolves a name locally before asking its parent, and an argument's value is the one given by the program if set there, else the command-line flag's, else the environment's. "
  "A missing required argument or a failing constructor is reported as an error that prevents the process from starting, never as a half-built instance.",
  ["configurations", "inputs", "histories"],
  "every tree of namespaces, every set of definitions and dependencies between them, every combination of sources of an argument, every set of failing constructors",
  "The tests build a handful of fixed namespaces.",
  ["runtime/plugins/golang/namespace.go"],
  [("Namespace.Get and the builder", "runtime/plugins/golang/namespace.go")],
  RP, "Namespaces are modelled as a recursive resolution function with a build log; generated configurations are run through the real code and compared by TLC.")

p("W01", "The workload engine reports every request it made and keeps to the mix",
  "A run of the open-loop engine starts requests at the configured average rate whatever requests under way do, picks each API in proportion to its share (a share of 0 never, 100 always), and starts none once it has been stopped by time or context. "
  "It returns once all requests it started have returned, and then its stats hold exactly one entry per request with what the request reported; the file and summary written from them agree with them. Shares that do not sum to 100 and unreadable durations are refused.",
  ["histories", "schedules", "inputs"],
  "any shares, rates, durations, slow or failing requests, any interleaving of requests, collector and end of the run",
  "No test runs the engine; losing a stat or sending on the closed channel needs a schedule.",
  ["runtime/core/workload"],
  [("RunOpenLoop", "runtime/core/workload/engine.go"), ("PrintStats", "runtime/core/workload/engine.go")],
  "TLC on the design (Workload.tla) and " + TV + "; race detector on the same runs",
  "The mix and the rate are judged within bounds that a correct engine exceeds with probability below 1 in 10^9; the lower bound of the rate is half of it and waived when the machine stalls.")

p("G02", "Cancelling or failing a namespace stops and awaits all its runnables",
  "Once a namespace is shut down or one of its runnables fails, the contexts of its runnables and of those of its descendants are cancelled, and waiting for the namespace returns only after all its runnables and those of its child namespaces have returned. "
  "Each runnable instance is started exactly once, and instances that are not runnable are not waited for.",
  ["schedules", "histories", "fault_sequences"],
  "every tree of namespaces and runnables, every order of starts, failures, shutdowns and completions",
  "The tests have one fixed pair of runnables.",
  ["runtime/plugins/golang/namespace.go"],
  [("wait groups and contexts per namespace", "runtime/plugins/golang/namespace.go")],
  TV, "Lifecycle state machine model checked; recorded event histories validated.")

p("S01", "A service registry builds the selected instance once and keeps its outcome",
  "Whatever the order of registrations, the registry's first lookup builds an instance with the constructor named as default, or with the first one registered if none was named, and every later lookup returns that same instance and that same error without building again. "
  "A lookup with nothing registered, or whose default was never registered, is an error.",
  ["histories"],
  "every sequence of registrations, default selections and lookups, with constructors that fail or succeed",
  "The only test calls SetDefault once and asserts nothing.",
  ["runtime/core/registry/registry.go"],
  [("cached build and build error", "runtime/core/registry/registry.go Get")],
  RP, "The registry is a small state machine; TLC enumerates all short histories and validates what the real registry did on them.")

p("V01", "Vector clocks carried by generated calls capture exactly happened-before",
  "When services are compiled with vector-clock logging, every call is logged as four events, and the clocks in the logs of all processes agree with causality: if one event happened before another through program order, a call or its return, its clock is smaller, and events not so related have incomparable clocks. "
  "Every event raises its own process's entry by one and every receipt takes the maximum with what was sent. Arguments, results and errors reach the caller as they would without the logging.",
  ["programs", "schedules", "histories"],
  "every call tree and interleaving of calls between any number of processes, over any RPC",
  "No test runs the wrappers together; the order is a property of whole histories of several processes.",
  ["plugins/govector", "runtime/plugins/govector", "plugins/golang/gocode"],
  [("client and server wrappers carry the clock in the call and in its return", "plugins/govector/ir_clientwrapper.go, ir_serverwrapper.go"),
   ("logger of the process", "runtime/plugins/govector/log.go")],
  "TLC on the design (VectorClockMC.tla: clocks order exactly what is causally ordered) and " + TV + "; race detector on the same runs",
  "Generated processes run as OS processes of their own; their logs, with notes of the driver in between, are merged and every entry must be a step of VectorClockTrace.tla, and the calls a behaviour of App.tla.")

p("T01", "Distributed tracing links every call to its caller's span across services",
  "When services are compiled with tracing, every call that passes the tracing client of a service starts one client span (unless the service is traced without client spans), every call that reaches its tracing server starts one server span, and all of them are ended and reported. "
  "A client span's parent is the span in which the caller runs, a server span's parent is the span of the call it serves, across processes as well, a call made outside of any span starts a trace of its own, and an invocation of the service runs in its server span, for every call tree. "
  "An error returned by the call is recorded on its spans, and arguments, results and errors reach the caller as they would without tracing.",
  ["programs", "histories", "inputs"],
  "every call tree over traced and untraced services, local or behind http and gRPC, below any other modifiers, sequential or concurrent, with any calls failing",
  "No test executes the generated tracing wrappers.",
  ["plugins/opentelemetry", "runtime/core/backend/trace.go"],
  [("span context passed as an extra argument", "plugins/opentelemetry/ir_ot_client.go, ir_ot_server.go"), ("GetSpanContext", "runtime/core/backend/trace.go")],
  TV, "The span tree is specified in TLA+; spans recorded from generated wrappers over generated call trees are compared by TLC.")

# ------------------------------------------------------------------ compiler
p("C01", "A wiring spec resolves names, aliases and modifiers as it was written",
  "For every wiring specification, looking up a name through any chain of aliases gives the most recent definition of the name the chain ends in, at most one node is built per name and namespace whichever alias it is reached through, and properties are returned in the order they were added. "
  "A name that is not defined, an alias cycle, or a node that cannot be built makes compilation end with an error naming it, never with a partial application or an endless loop.",
  ["programs", "configurations"],
  "every sequence of definitions, redefinitions, aliases, properties and instantiations",
  "The tests compile a few well-formed specs.",
  ["blueprint/pkg/wiring/wiring.go", "blueprint/pkg/wiring/namespace.go", "blueprint/pkg/wiring/application.go"],
  [("definitions and aliases", "blueprint/pkg/wiring"), ("namespace cache", "blueprint/pkg/wiring")],
  RP, "Small wiring programs enumerated by TLC, executed with the real compiler packages and compared.")

p("C02", "Every node is placed in exactly the namespace its wiring asks for",
  "For every arrangement of services, processes and containers, the compiled application contains each instance once, in the innermost enclosing namespace that accepts its kind of node, and each namespace lists as arguments exactly the nodes it uses but does not contain, so that every argument is provided by the parent. ",
  ["programs", "configurations"],
  "every nesting of namespaces and every dependency graph between instances",
  "The tests look at about twenty fixed graphs by comparing printed IR.",
  ["blueprint/pkg/wiring/namespace.go", "blueprint/pkg/coreplugins/namespaceutil", "plugins/goproc", "plugins/linuxcontainer"],
  [("namespace Get, Put and edges", "blueprint/pkg/wiring/namespace.go")],
  RP, "The placement function is specified in TLA+, evaluated by TLC on generated wiring programs and compared with the IR the compiler built.")

p("C03", "Modifiers wrap a service in the order applied, on the side they belong to",
  "For every sequence of client and server modifiers applied to a service, a caller's reference leads through the client-side modifiers in the order they were applied (the first one nearest the caller), then through the server-side modifiers in reverse order (the last one applied first), and then to the service itself, each exactly once. "
  "Every caller in every process gets the same chain, and the server side is instantiated only where it is deployed.",
  ["programs", "configurations"],
  "every sequence of modifiers on every service, any number of callers",
  "The tests use one modifier order each.",
  ["blueprint/pkg/coreplugins/pointer/pointer.go"],
  [("src and dst modifier chains", "blueprint/pkg/coreplugins/pointer/pointer.go")],
  RP, "The chain is a TLA+ function of the modifier sequence, compared by TLC with the compiled IR and with what generated programs did.")

p("C04", "Deployed servers do not collide, and every client's address leads to its server",
  "For every application deployed as processes on one machine, with docker-compose, on Kubernetes, or as a mixture, every server listens at an address of its own and every client, with the address that its environment, configuration files and start scripts give it, reaches exactly the server that it was wired to. "
  "Generated environment files give every address one port, the same in each of them, and set everything that start scripts and compose files require; start scripts start every process once, with the values of its own variables; compose files and manifests have every container, and publish or expose what others dial. "
  "Ports that are fixed are kept, two servers fixed to one port of the same pod or too few ports are a compile error, and assigned ports are distinct, valid and preferred ones unless taken.",
  ["programs", "configurations"],
  "any number of services and backends over any processes, containers, pods and deployments, any first port, any mixture of preferred, fixed and unassigned ports",
  "The tests never look at what the deployment plugins generate.",
  ["blueprint/pkg/coreplugins/address", "plugins/environment", "plugins/linuxcontainer", "plugins/dockercompose", "plugins/kubernetes"],
  [("port assignment", "blueprint/pkg/coreplugins/address/portassignment.go"), ("env files", "plugins/environment/wiring.go"),
   ("run.sh and Dockerfile", "plugins/linuxcontainer"), ("docker-compose.yml", "plugins/dockercompose"), ("pods, services and the config map", "plugins/kubernetes")],
  RP, "Deploy.tla specifies networks, forwarding, names, environments and processes; the compiler's way of giving out ports and addresses is model checked over every placement of three servers and every order of starting things. The artifacts generated for random applications are evaluated step by step against it: scripts really run, with programs that record their arguments; containers are not run, the steps of their Dockerfile are carried out in a directory.")

p("C05", "A service is shared or reached from afar only as its wiring allows",
  "A service that must be unique in the application (or in each process or container) is instantiated at most once there; compilation fails with an error when its callers would need a second instance, for example a caller in another process when the service has no RPC deployment, and succeeds when every such reference goes through one. "
  "A service that need not be unique is instantiated once per namespace that uses it. "
  "All callers within a process share its instance.",
  ["programs", "configurations"],
  "every assignment of services to processes and containers, every set of uniqueness requirements and of deployed services",
  "The tests have single examples of each.",
  ["blueprint/pkg/coreplugins/pointer/visibility.go", "blueprint/pkg/coreplugins/pointer/pointer.go", "blueprint/pkg/wiring/namespace.go"],
  [("uniqueness metadata", "blueprint/pkg/coreplugins/pointer/visibility.go"), ("pointer's lazy instantiation of its server side", "blueprint/pkg/coreplugins/pointer/pointer.go")],
  RP, "Wire.tla gives the outcome of every wiring program; the pointer protocol is model checked exhaustively over a catalogue of modifiers and placements, and TLC compares it with the compiler on generated programs.")

# ------------------------------------------------------------------ generated code
GEN = ("Random applications are compiled by the real compiler and linked into a driver; every history recorded from them must be a behaviour of App.tla. "
       "Programs, schedules and timing are sampled; runs use the race detector.")

p("X01", "Retry modifiers retry exactly as configured and report the last outcome",
  "A call of a service compiled with a retry modifier makes attempts, one after another, until one succeeds or the modifier's budget is used up (its number of attempts, the limit of its back-off, or its tokens), waits at least the configured time between attempts, and returns the result of the last attempt made, unchanged. "
  "An attempt follows only a failed one. The budget of one call or of one modifier is never spent by calls of other services, and concurrent calls do not disturb each other.",
  ["programs", "histories", "schedules", "fault_sequences"],
  "every kind of retry modifier, any number of retried services in a process, any sequence of failures, concurrent callers and cancellations",
  "No test runs generated retry clients; several in one process, concurrent calls and failure sequences are beyond any fixed example.",
  ["plugins/retries"],
  [("generated client wrappers", "plugins/retries")],
  TV + "; race detector on the same runs", GEN)

p("X02", "A timeout ends a call once its time is over and never alters its outcome",
  "A call of a service compiled with a timeout returns what the call below returned if that came in time, and an error otherwise, no earlier than the configured time or the cancellation of the caller's context, and it never keeps its caller waiting for a call that goes on. "
  "The context handed down expires at that time, also for services further down in the same process. "
  "What a call that was given up does later affects nobody.",
  ["programs", "histories", "schedules"],
  "every nesting of timeouts over services, calls that take any time or never end, concurrent callers and cancellations",
  "No test runs generated timeout clients; lateness and races with the deadline need particular timings.",
  ["plugins/timeouts"],
  [("generated client wrapper", "plugins/timeouts")],
  TV + "; race detector on the same runs", GEN)

p("X03", "A load balancer sends every call to exactly one of its instances, in turn",
  "Every call made through a compiled load balancer reaches exactly one of the services it was wired with, its result comes back unchanged, and the calls are spread over them in rotation, whichever callers they come from and whether the callers are concurrent. "
  "Balancers of the same interface in one process do not influence each other.",
  ["programs", "histories", "schedules"],
  "any number of balancers, instances and concurrent callers, instances local or remote",
  "No test runs generated balancers.",
  ["plugins/loadbalancer"],
  [("generated balancer", "plugins/loadbalancer")],
  TV + "; race detector on the same runs", GEN)

p("X04", "A compiled client pool limits concurrent calls and returns every client",
  "At most as many calls of a service compiled with a client pool of n clients are under way at a time per calling process as there are clients, up to n really run at once, and every call gives its client back whether it succeeds or fails, so that later calls proceed. "
  "Arguments, results and errors pass unchanged.",
  ["programs", "histories", "schedules", "fault_sequences"],
  "any number of pooled services and concurrent callers, any pool sizes, calls that fail or are slow",
  "No test runs generated pools.",
  ["plugins/clientpool", "runtime/plugins/clientpool"],
  [("generated pool and client", "plugins/clientpool")],
  TV + "; race detector on the same runs", GEN)

p("X05", "Injected latency, faults and health checks change only what they are meant to",
  "A call of a service compiled with latency injection takes at least the configured time; with fault injection at rate 0 it never and at rate 100 it always fails without reaching the service, and in between it either reaches the service once or fails; random delays and health checks leave calls as they are. "
  "Everything else about the call, its arguments, its result and how often the service runs, is as without the modifier, in every order and combination of modifiers.",
  ["programs", "histories", "inputs"],
  "every combination and order of the modifiers over several services, local and remote",
  "No test runs the generated wrappers.",
  ["plugins/latency", "plugins/healthchecker", "plugins/faultinjector"],
  [("generated server wrappers", "plugins/latency, plugins/healthchecker, plugins/faultinjector")],
  TV + "; race detector on the same runs", GEN)

p("X07", "A circuit breaker passes calls while closed and refuses them once opened",
  "A compiled circuit breaker passes calls through unchanged until its failure rate is reached after its minimum number of calls, counted over the calls of its own service in its own process, and refuses every call from then on without reaching the service. "
  "Breakers of different services in one process do not influence each other.",
  ["programs", "histories", "schedules", "fault_sequences"],
  "any number of breakers, any thresholds, any sequence of failures, concurrent callers",
  "No test runs generated breakers.",
  ["plugins/circuitbreaker"],
  [("generated client wrapper", "plugins/circuitbreaker")],
  TV + "; race detector on the same runs",
  GEN + " The third-party breaker library is not available offline; a stand-in with its documented behaviour is linked (stubs/circuitbreaker), so only Blueprint's use of it is decided.")

p("C06", "A compiled application connects its services exactly as wired",
  "For every graph of services over processes and containers, with local references, RPC, load balancers and modifiers in any arrangement, the compiled application builds and starts, every service is constructed exactly once, and every call made through a reference reaches exactly the instance it was wired to. "
  "Calls made while serving a call, one after another or at once, to any depth, return what the services they name returned.",
  ["programs", "configurations", "histories"],
  "every acyclic graph of services, every assignment to processes and containers, every choice of RPC per service, every call tree",
  "The tests compare IR and never run what was generated.",
  ["plugins/goproc", "plugins/golang/gogen", "plugins/workflow", "plugins/http", "plugins/grpc", "plugins/linuxcontainer", "runtime/plugins/golang/namespace.go"],
  [("generated process namespaces", "plugins/golang/gogen"), ("RPC wrappers", "plugins/http, plugins/grpc")],
  TV + "; race detector on the same runs", GEN + " protoc-gen-go-grpc and gorilla/mux are stand-ins (stubs/).")

p("X06", "Generated clients and servers carry arguments, results and errors unchanged",
  "For every service interface the compiler accepts, a call through any chain of generated wrappers and RPC runs the same method of the service with equal arguments and returns equal results, whatever the values: extreme numbers, any text, nil or empty collections (which count as equal), nil pointers, nested and recursive structures, structs of the same name from different packages. "
  "A call that fails returns an error, and one that did not fail returns none. An interface that cannot be carried is refused by the compiler rather than altered.",
  ["programs", "inputs", "histories"],
  "every interface over basic types, structs, pointers, slices and maps as far as gRPC or HTTP carry them, every value",
  "The tests compile a few interfaces and never call through what was generated.",
  ["plugins/grpc/grpccodegen", "plugins/http/httpcodegen", "plugins/golang/gogen", "plugins/retries", "plugins/timeouts"],
  [("marshalling code", "plugins/grpc/grpccodegen/marshallgen.go, protogen.go"), ("JSON in query strings", "plugins/http/httpcodegen")],
  TV + "; race detector on the same runs",
  "Random interfaces and values; App.tla requires what arrives to equal what was sent. " + GEN)
