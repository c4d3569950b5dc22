from common import *
from nosqlgen import *


def finds(c, fs, rng):
    """A case: insert the documents, run every filter."""
    ops = [mk("insert", docs=[dict({"_id": i + 1}, **d) for i, d in enumerate(c)], dump=True, as_="many", rng=rng)]
    for f in fs:
        ops.append(mk("find", f))
        if rng.random() < .25:
            ops.append(mk("findone", f, as_=rng.choice(["", "one"])))
    return [ops]


def check(ctx):
    rng = ctx.rng
    cases = []
    small = [{"a": v} for v in SMALL] + [{"b": 1}]
    fs = simple_filters()
    assert len(fs) > 500
    for lo in range(0, len(fs), 25):
        cases.append(finds(small, fs[lo:lo + 25], rng))
    cases.append(finds(small, BAD, rng))
    for op in ("$and", "$or", "$nor"):
        cases.append(finds(small, [logic(op, [rng.choice(fs) for _ in range(k)]) for k in (1, 2, 3) for _ in range(10)], rng))
    cases.append(finds(small, [logic("$not", [rng.choice(fs)]) for _ in range(20)], rng))
    cases.append(finds([], fs[:10], rng))
    for _ in range(ctx.pick(350, 4000)):
        docs = [document(rng) for _ in range(rng.randint(1, 6))]
        cases.append(finds(docs, [rand_filter(rng, docs, rng.randint(0, 3)) for _ in range(12)], rng))
    ctx.cov["filters"] = sum(len(c[0]) - 1 for c in cases)
    run_cases(ctx, cases, what="query")
