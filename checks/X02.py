"""Timeouts."""
from appscen import *


def check(ctx):
    use_wf(ctx)
    n = ctx.pick(10, 60)
    made = [timeout_app(ctx.rng, "a%d" % i, i % 3 == 2) for i in range(n)]
    run_apps(ctx, [a for a, _ in made], made, "timeouts", race=True, timeout=ctx.pick(300, 3000))
