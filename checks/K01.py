from common import *
from lin import run_histories


def check(ctx):
    ctx.model_check("Cache", """SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
 Incs = %d
INVARIANTS NoLostIncrement DistinctResults
CHECK_DEADLOCK FALSE
""" % ctx.pick(2, 3))
    # first without instrumentation under the race detector, then with perturbed schedules
    run_histories(ctx, "drv_cache", "CacheTrace", ctx.pick(600, 3000), race=True)
    ctx.instrument(["runtime/plugins/simplecache"])
    run_histories(ctx, "drv_cache", "CacheTrace", ctx.pick(1500, 9000))
