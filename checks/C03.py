from wiregen import *


def check(ctx):
    ctx.model_check("WireMC", MC % (ctx.pick(3, 5), "Order"), deadlock=False, timeout=1500)
    explain(ctx, [service_program(ctx.rng) for _ in range(ctx.pick(1500, 12000))], "services and their modifiers")
