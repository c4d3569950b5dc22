"""Latency, faults, random delays, health checks."""
from appscen import *


def check(ctx):
    use_wf(ctx)
    n = ctx.pick(10, 60)
    made = [server_app(ctx.rng, "a%d" % i, i % 3 == 2) for i in range(n)]
    run_apps(ctx, [a for a, _ in made], made, "server-side modifiers", race=True, timeout=ctx.pick(300, 3000))
