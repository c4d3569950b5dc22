"""Any graph of services over processes and containers."""
from appscen import *


def check(ctx):
    use_wf(ctx)
    use_grpc(ctx)
    n = ctx.pick(14, 90)
    made = [graph_app(ctx.rng, "a%d" % i, [["http"], ["grpc"], ["http", "grpc"]][i % 3]) for i in range(n)]
    run_apps(ctx, [a for a, _ in made], made, "wiring", race=True, timeout=ctx.pick(300, 3000))
    a = App("half")
    a.svc("s0", "p0")
    a.mod("s0", "health")
    a.svc("s1", "p0")
    for s in ("s0", "s1"):
        a.mod(s, "http")
    must_build(ctx, a, "one of two services of an interface has a health check")
