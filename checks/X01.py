"""Retries."""
from appscen import *


def check(ctx):
    use_wf(ctx)
    n = ctx.pick(14, 84)
    made = [retry_app(ctx.rng, "a%d" % i, i % 3 == 2, RETRIES[i % 7]) for i in range(n)]
    run_apps(ctx, [a for a, _ in made], made, "retries", race=True, timeout=ctx.pick(300, 3000))

