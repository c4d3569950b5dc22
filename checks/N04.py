from common import *
from nosqlhist import *


def mongo(rng, ops):
    """Makes a history one that a MongoDB server takes, with projections, duplicates and failures."""
    out, ids = [], {}
    for drv, tla in ops:
        if tla["op"] == "replaceMany" or '["m", ' in json.dumps(drv):   # a map is a document like any other to a server
            continue
        if tla["op"] in ("find", "findone") and rng.random() < .3:
            proj = rng.sample(["a", "b", "c", "n", "x", "y", "_id"], rng.randint(1, 3))
            drv, tla = dict(drv, proj=proj), dict(tla, proj=proj)
        out.append((drv, tla))
        if tla["op"] == "insert" and rng.random() < .25:
            seen = ids.setdefault(drv["coll"], [])
            seen.append(1000 + len(seen))
            new = [dict({"_id": rng.choice(seen)}, **document(rng)) for _ in range(rng.randint(1, 3))]
            out.append(mk("insert", docs=new, as_=rng.choice(["", "many"]), dump=True, coll=drv["coll"], rng=rng))
        if rng.random() < .05:
            f = by_id(1)
            drv, tla = rng.choice([mk("insert", docs=[document(rng)], as_=rng.choice(["", "many"]), coll="f/f"), mk("find", f, coll="f/f"), mk("findone", f, coll="f/f"),
                                   mk("updateOne", f, upd("$set", "a", 1), coll="f/f"), mk("updateMany", f, upd("$set", "a", 1), coll="f/f"),
                                   mk("deleteOne", f, coll="f/f"), mk("deleteMany", f, coll="f/f"), mk("replaceOne", f, docs=[document(rng)], coll="f/f"),
                                   mk("upsert", f, docs=[document(rng)], coll="f/f"), mk("upsertID", by_id(Oid(5)), docs=[{"_id": Oid(5)}], coll="f/f")])
            out.append((drv, dict(tla, op="fails")))
    return out


def check(ctx):
    rng = ctx.rng
    cases = [[mongo(rng, history(rng, rng.randint(6, 22))[0])] for _ in range(ctx.pick(400, 4000))]
    run_cases(ctx, cases, what="history", store="mongo")
    cc = [concurrent(rng, rng.choice([2, 2, 3]), rng.randint(2, 5)) for _ in range(ctx.pick(150, 1500))]
    run_cases(ctx, cc, what="concurrent use", store="mongo", race=True)
