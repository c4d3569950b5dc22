"""Random interfaces through RPC and modifiers."""
from typedgen import *


def check(ctx):
    rng = ctx.rng
    use_wf(ctx)
    ifaces, types, callers, per = [], [], {}, {}
    for k, kind, tk in (("L", "", "any"), ("H", "http", "any"), ("G", "grpc", "grpc")):
        t = Types(rng, tk, k, ctx.pick(4, 6))
        types.append(t)
        mine = [Iface(rng, "%s%d" % (k, i), t, rng.randint(3, 5)) for i in range(ctx.pick(2, 5))]
        ifaces += mine
        names = [i.name for i in mine]
        per[kind] = {"C%s%d" % (k, j): [rng.choice(names) for _ in range(n)] for j, n in enumerate([1, 2, 3])}
        callers.update(per[kind])
    names = Iface(rng, "N0", types[1], 1)
    names.methods = [("M0", [("url", "string"), ("plan", "string")], 1, ["string"])]
    ifaces.append(names)
    callers["CN"] = ["N0"]
    use_grpc(ctx)
    write_package(ctx, types, ifaces, callers)
    made = []
    for i in range(ctx.pick(9, 60)):
        kind = ["grpc", "http", ""][i % 3]
        made.append(typed_app(rng, "a%d" % i, ifaces, per[kind], kind, i % 2 == 0))
    run_apps(ctx, [a for a, _ in made], made, "calls", race=True, timeout=ctx.pick(300, 3000))
    a = App("url")
    typed_svc(a, "s0", "p0", "N0Impl")
    a.mod("s0", "http")
    typed_svc(a, "r", "p1", "CN", ["s0"])
    must_build(ctx, a, "an argument is named url")
