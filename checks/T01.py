"""Tracing: the spans of generated wrappers, as they reach a stand-in for Zipkin."""
from appscen import *
from typedgen import *


def check(ctx):
    use_wf(ctx)
    use_grpc(ctx)
    os.environ["OTEL_BSP_SCHEDULE_DELAY"] = "1000"
    n = ctx.pick(14, 90)
    made = [trace_app(ctx.rng, "a%d" % i, [["http"], ["grpc"], ["http", "grpc"]][i % 3]) for i in range(n)]
    a = App("mixed")
    a.collector = "zip"
    a.ops.append({"op": "zipkin", "name": "zip"})
    for i in range(2):
        a.svc("s%d" % i, "p0", [], i)
        for m in ["otel", "health"] if i else ["health", "otel"]:
            a.mod("s%d" % i, m, **({"own": True} if m == "otel" else {}))
        a.mod("s%d" % i, "http")
    ifaces, types, callers, per = [], [], {}, {}
    for k, kind, tk in (("L", "", "any"), ("H", "http", "any"), ("G", "grpc", "grpc")):
        types.append(Types(ctx.rng, tk, k, 4))
        mine = [Iface(ctx.rng, "%s%d" % (k, i), types[-1], 3) for i in range(2)]
        ifaces += mine
        per[kind] = {"C%s%d" % (k, j): [ctx.rng.choice(mine).name for _ in range(j)] for j in (2, 3)}
        callers.update(per[kind])
    write_package(ctx, types, ifaces, callers)
    for i in range(ctx.pick(3, 15)):
        kind = ["grpc", "http", ""][i % 3]
        made.append(typed_app(ctx.rng, "t%d" % i, ifaces, per[kind], kind, False, "zip"))
    write_ifaces(ctx, [b for b, _ in made] + [a])
    recs = run_apps(ctx, [b for b, _ in made], made, "tracing", race=True, timeout=ctx.pick(300, 3000))
    ns = [len(e["spans"]) for r in recs.values() for e in r.get("events", []) if e["e"] == "spans"]
    ctx.cov["scenarios whose spans were compared"] = len(ns)
    ctx.cov["spans"] = sum(ns)
    if recs and not ctx.violations and (len(ns) < len(recs) / 2 or sum(ns) < 20):
        raise CheckError("too few spans were compared: %s" % ns)
    must_build(ctx, a, "tracing inside of a health check and a health check inside of tracing in one process")
