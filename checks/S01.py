import json, re
from common import *
from lin import run_histories


def check(ctx):
    r = ctx.model_check("Registry", """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Names = {"a", "b"}
INVARIANTS OneOutcome BuiltOnce Emit
CHECK_DEADLOCK FALSE
""" % ctx.pick(4, 5))
    ops = sorted({m.encode().decode("unicode_escape") for m in re.findall(r'^"OPS (.*)"$', r.out, re.M)})
    if not ops:
        raise CheckError("no histories emitted")
    ops = [o for o in ops if '"get"' in o]
    p = ctx.path("ops.ndjson")
    open(p, "w").write("\n".join(ops) + "\n")
    run_histories(ctx, "drv_registry", "RegistryTrace", p, chunk=4000)
