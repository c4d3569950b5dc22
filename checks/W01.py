from common import *


def case(rng, bulk):
    bulk = bulk and rng.choice(["short", "short", "mix", "together"])
    ms = rng.choice([10, 20, 30] if bulk == "short" else [300] if bulk else [300, 500, 800, 1200])
    tput = rng.choice([20, 100, 200, 300]) if not bulk else 5000 if bulk == "together" else 50000
    n = rng.randint(1, 5)
    cuts = sorted(rng.randint(0, 100) for _ in range(n - 1))
    shares = [b - a for a, b in zip([0] + cuts, cuts + [100])]
    rng.shuffle(shares)
    if bulk == "mix":
        k = rng.choice([1, 2, 3])
        shares = [k, 100 - k] if rng.random() < .5 else [50 - k, k, 50]
        rng.shuffle(shares)
        n = len(shares)
    elif rng.random() < .2:
        shares[rng.randrange(n)] += rng.choice([-1, 1, 5]) if min(shares) > 0 else 1
    slow = rng.random() < .5
    reqs = [{"hold": rng.choice([0, 0, 1, 20, 300] if slow else [0, 1]), "fail": rng.random() < .3, "dur": rng.randint(0, 9999)}
            for _ in range(rng.randint(1, 40))]
    bad = rng.random() < .1
    return {"tput": tput, "ms": ms, "duration": rng.choice(["soon", "", "5"]) if bad else "%dms" % ms, "shares": shares,
            "bulk": bool(bulk), "together": bulk == "together",
            "names": [rng.choice(["a", "b", "c"]) for _ in shares], "reqs": reqs,
            "cancel": rng.choice([0, 0, 0, 0 if bulk else ms // 2]), "old": rng.random() < .5}


def explain(ctx, cases, race=False):
    binary = ctx.build("./cmd/drv_workload", race=race)
    d = ctx.fresh("wl")
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    r, crash = run_driver(ctx, binary, [out, inp, d], timeout=300)
    if crash:
        if REPO + "/" not in crash["text"]:
            raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
        ctx.violation("workload: %s" % crash.get("first", crash["kind"]), crash)
        return
    traces = read_ndjson(out)
    if len(traces) != len(cases):
        raise CheckError("driver recorded %d of %d cases" % (len(traces), len(cases)))
    ctx.sample({"shares": cases[0]["shares"], "tput": cases[0]["tput"], "events": len(traces[0])})
    for i, reached in ctx.validate("WorkloadTrace", traces, chunk=4)[:3]:
        t = traces[i]
        ctx.violation("workload: event %d %s" % (reached, json.dumps(t[reached] if reached < len(t) else None)[:300]),
                      {"explained_prefix": reached, "case": cases[i], "trace": t})


def check(ctx):
    ctx.model_check("Workload", """SPECIFICATION Spec
CONSTANTS Reqs = {r1, r2, r3%s}
 Cap = 2
INVARIANTS NoSendOnClosed Complete OnceEach OpenLoop
PROPERTIES Comes Quiet
CHECK_DEADLOCK FALSE
""" % ctx.pick("", ", r4"))
    ctx.instrument(["runtime/core/workload"])
    explain(ctx, [case(ctx.rng, False) for _ in range(ctx.pick(16, 240))])
    explain(ctx, [case(ctx.rng, True) for _ in range(ctx.pick(96, 800))])
    explain(ctx, [case(ctx.rng, i % 2) for i in range(ctx.pick(16, 64))], race=True)
