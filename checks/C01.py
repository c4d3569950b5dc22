from wiregen import *


def check(ctx):
    explain(ctx, [names_program(ctx.rng) for _ in range(ctx.pick(1500, 15000))], "names of a wiring spec")
