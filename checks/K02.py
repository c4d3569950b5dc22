from common import *
from lin import run_histories


def check(ctx):
    for store in ("redis", "memcached"):
        ctx.model_check("NetCache", """SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
 Incs = %d
 Store = "%s"
INVARIANTS NoLostIncrement FailedSetsNothing Untouched
CHECK_DEADLOCK FALSE
""" % (ctx.pick(2, 4), store))
    run_histories(ctx, "drv_netcache", "NetCacheTrace", ctx.pick(400, 2000), race=True)
    ctx.instrument(["runtime/plugins/redis", "runtime/plugins/memcached"])
    run_histories(ctx, "drv_netcache", "NetCacheTrace", ctx.pick(800, 5000))
