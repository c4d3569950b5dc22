from wiregen import *


def check(ctx):
    ctx.model_check("WireMC", MC % (ctx.pick(3, 5), "Single Belongs"), deadlock=False, timeout=1500)
    explain(ctx, [unique_program(ctx.rng) for _ in range(ctx.pick(1500, 12000))], "services that must be unique")
