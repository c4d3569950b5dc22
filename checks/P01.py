from common import *
from lin import run_histories


def check(ctx):
    ctx.model_check("Pool", """SPECIFICATION Spec
CONSTANTS Callers = {c1, c2, c3}
 Cap = 2
 MaxFail = 2
 MaxIds = %d
INVARIANTS BoundedClients Exclusive HeldByCallers NoIdleWait
PROPERTY Served
CHECK_DEADLOCK FALSE
""" % ctx.pick(4, 6))
    ctx.instrument(["runtime/plugins/clientpool"])
    run_histories(ctx, "drv_pool", "PoolTrace", ctx.pick(1500, 8000))
