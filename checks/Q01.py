from common import *
from lin import run_histories


def check(ctx):
    ctx.model_check("Queue", """SPECIFICATION Spec
CONSTANTS Producers = {p1, p2}
 Consumers = {c1, c2}
 Cap = 2
 PerProducer = %d
INVARIANTS Bounded Conservation Fifo
PROPERTY Drained
CHECK_DEADLOCK FALSE
""" % ctx.pick(2, 3))
    ctx.instrument(["runtime/plugins/simplequeue"])
    run_histories(ctx, "drv_queue", "QueueTrace", ctx.pick(1500, 8000))
