from common import *
from nosqlhist import *


def check(ctx):
    rng = ctx.rng
    cases = [history(rng, rng.randint(6, 22)) for _ in range(ctx.pick(500, 6000))]
    run_cases(ctx, cases, what="history")
    ctx.instrument(["runtime/plugins/simplenosqldb", "runtime/plugins/simplenosqldb/query"])
    cc = [concurrent(rng, rng.choice([2, 2, 3]), rng.randint(2, 5)) for _ in range(ctx.pick(400, 4000))]
    run_cases(ctx, cc, what="concurrent use")
    cc = [concurrent(rng, 4, 12) for _ in range(ctx.pick(10, 60))]
    run_cases(ctx, cc, race=True, what="concurrent use", validate=False)
