from common import *
from nosqlgen import *


def step(doc, us, rng, q=None):
    """Every update on the same document: insert it, update it, take it out again."""
    ops = []
    for u in us:
        ops.append(mk("insert", docs=[dict({"_id": 1}, **doc)], rng=rng))
        ops.append(mk(rng.choice(["updateOne", "updateMany"]), q or all_of([]), u, dump=True))
        ops.append(mk("deleteMany"))
    return [ops]


def explicit(docs):
    return [dict({"_id": i + 1}, **d) for i, d in enumerate(docs)]


def check(ctx):
    rng = ctx.rng
    cases = []
    small = [{"a": v, "b": 1} for v in SMALL] + [{"b": 1}]
    us = simple_updates()
    ctx.cov["updates_exhaustive"] = len(us)
    for d in small:
        # on the quick tier, each document gets a third of the updates; which ones varies
        mine = us if ctx.thorough else [u for i, u in enumerate(us) if (i + len(cases)) % 3 == 0]
        for lo in range(0, len(mine), 30):
            cases.append(step(d, mine[lo:lo + 30], rng))
    cases.append(step({"a": 1}, [U([], b, True) for b in BADU], rng))
    # several operators, several documents, one or many of them matching
    for _ in range(ctx.pick(500, 5000)):
        docs = explicit([document(rng) for _ in range(rng.randint(1, 5))])
        ops = [mk("insert", docs=docs, as_="many", rng=rng)]
        for _ in range(rng.randint(3, 8)):
            f = all_of([]) if rng.random() < .35 else rand_filter(rng, docs, rng.randint(0, 2))
            ops.append(mk(rng.choice(["updateOne", "updateMany", "updateMany"]), f, rand_update(rng, docs), dump=True))
        cases.append([ops])
    ctx.cov["updates"] = sum(1 for c in cases for o in c[0] if o[0]["op"].startswith("update"))
    run_cases(ctx, cases, what="update")
