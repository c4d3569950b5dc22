"""The common course of a check that validates recorded histories of a concurrent object."""
import json
from common import *


def run_histories(ctx, drv, module, runs, instrument=(), race=False, args=(), timeout=200, consts="",
                  chunk=400, what="history not explained by the specification", env=None, name=None):
    """Builds and runs driver cmd/<drv>, validates what it recorded with spec/<module>.tla and
    records a violation for every rejected history (at most a few)."""
    binary = ctx.build("./cmd/" + drv, race=race)
    out = ctx.path((name or drv) + ("_race" if race else "") + ".ndjson")
    r, crash = run_driver(ctx, binary, [out, runs] + list(args), timeout=timeout, env=env)
    if crash:
        if crash["kind"] == "datarace":
            # only races inside the code under test count
            if REPO + "/" not in crash["text"]:
                raise CheckError("data race outside the code under test:\n" + crash["text"])
            ctx.violation("data race in the code under test (no interleaving semantics)", crash)
        else:
            if REPO + "/" not in crash["text"]:
                raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
            ctx.violation("the code under test crashed: " + crash["first"], crash)
        return
    traces = read_ndjson(out)
    if not traces:
        raise CheckError("driver recorded nothing")
    ctx.sample(traces[0][:40])
    bad = ctx.validate(module, traces, consts=consts, chunk=chunk)
    for i, reached in bad[:5]:
        t = traces[i]
        nxt = t[reached] if reached < len(t) else None
        ctx.violation("%s: event %d %s" % (what, reached, json.dumps(nxt)),
                      {"driver": drv, "module": module, "explained_prefix": reached, "trace": t, "case": t[0].get("case", ""), "next": (nxt or {}).get("what", "")})
    return traces
