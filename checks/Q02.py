from common import *
from lin import run_histories


def check(ctx):
    ctx.model_check("NetQueue", """SPECIFICATION Spec
CONSTANTS Pushers = {p1, p2}
 Poppers = {c1, c2}
 Items = %d
INVARIANTS Refines Conservation
PROPERTY Drained
CHECK_DEADLOCK FALSE
""" % ctx.pick(2, 3))
    run_histories(ctx, "drv_netqueue", "NetQueueTrace", ctx.pick(120, 600), race=True)
    ctx.instrument(["runtime/plugins/rabbitmq"])
    run_histories(ctx, "drv_netqueue", "NetQueueTrace", ctx.pick(250, 1500))
