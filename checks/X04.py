"""Client pools."""
from appscen import *


def check(ctx):
    use_wf(ctx)
    n = ctx.pick(8, 60)
    made = [pool_app(ctx.rng, "a%d" % i, i % 3 == 2) for i in range(n)]
    run_apps(ctx, [a for a, _ in made], made, "client pools", race=True, timeout=ctx.pick(300, 3000))
