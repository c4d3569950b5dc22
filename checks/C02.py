from wiregen import *
import appgen
from deploygen import rand_deployment
from placement import *


def check(ctx):
    use_deployments(ctx)
    ctx.model_check("WireMC", MC % (ctx.pick(2, 4), "Visible Belongs"), deadlock=False)
    explain(ctx, [place_program(ctx.rng) for _ in range(ctx.pick(1500, 15000))], "where nodes are built")
    n = ctx.pick(150, 1500)
    kinds = ["host", "compose", "mixed", "kube"]
    Ds = [rand_deployment(ctx.rng, "app%d" % i, kinds[i % len(kinds)]) for i in range(n)]
    placements(ctx, Ds)
