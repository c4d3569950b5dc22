"""Histories of collections."""
from nosqlgen import *


def doc(rng, ids, state):
    d = document(rng)
    r = rng.random()
    if r < .35:
        return d  # the store makes an _id
    if r < .6:
        state["o"] += 1
        return dict({"_id": Oid(state["o"])}, **d)
    state["i"] += 1
    return dict({"_id": state["i"]}, **d)


def by_id(x):
    return cond("_id", "=", x)


def history(rng, n):
    """One thread, several collections of several databases."""
    names = rng.sample(["a/a", "a/b", "b/a"], rng.choice([1, 1, 2, 3]))
    docs = {c: [] for c in names}
    st = {"i": 0, "o": 0}
    ops, hold, open_ = [], 0, []
    for _ in range(n):
        c = rng.choice(names)
        pool = docs[c] or [document(rng)]
        f = all_of([]) if rng.random() < .25 else rand_filter(rng, pool, rng.randint(0, 1))
        ids = [d["_id"] for d in docs[c] if "_id" in d]
        if ids and rng.random() < .35:
            f = by_id(rng.choice(ids))
        r = rng.random()
        common = dict(dump=True, coll=c, rng=rng)
        if r < .25 or not docs[c]:
            new = [doc(rng, ids, st) for _ in range(rng.choice([1, 1, 2, 3]))]
            docs[c] += new
            ops.append(mk("insert", docs=new, as_=rng.choice(["", "many"]), **common))
        elif r < .37:
            if rng.random() < .5 and not unsupported(f.tla):
                hold += 1
                open_.append((hold, c))
                ops.append(mk(rng.choice(["find", "find", "findone"]), f, hold=hold, **common))
            else:
                ops.append(mk("find", f, as_=rng.choice(["", "m"]), **common))
        elif r < .5 and open_:
            h, c = open_.pop(rng.randrange(len(open_)))
            ops.append(mk(rng.choice(["read", "read", "one"]), hold=h, dump=True, coll=c))
        elif r < .58:
            ops.append(mk("scribble", dump=True, coll=c))
        elif r < .7:
            ops.append(mk(rng.choice(["updateOne", "updateMany"]), f, rand_update(rng, pool), dump=True, coll=c))
        elif r < .8:
            m = rng.choice(["replaceOne", "replaceMany"])
            new = [document(rng) for _ in range(1 if m == "replaceOne" else rng.randint(0, 3))]
            docs[c] += new
            ops.append(mk(m, f, docs=new, **common))
        elif r < .9:
            if rng.random() < .4:
                x = rng.choice(ids) if ids and rng.random() < .6 else None
                if not isinstance(x, Oid):
                    st["o"] += 1
                    x = Oid(st["o"])
                new = dict({"_id": x}, **document(rng))
                docs[c].append(new)
                ops.append(mk("upsertID", by_id(x), docs=[new], **common))
            else:
                new = document(rng)
                docs[c].append(new)
                ops.append(mk("upsert", f, docs=[new], **common))
        else:
            ops.append(mk(rng.choice(["deleteOne", "deleteOne", "deleteMany"]), f, **common))
    return [ops]


def concurrent(rng, nthreads, n):
    """Counters and small lists under concurrent use."""
    first = [mk("insert", docs=[{"_id": 1, "n": 0, "l": [], "s": []}], as_="many"), mk("insert", docs=[{"_id": 2, "n": 0, "l": [], "s": []}])]
    threads = [first]
    nid = 10
    for t in range(nthreads):
        ops = []
        for _ in range(n):
            q = rng.choice([by_id(1), by_id(2), all_of([]), cond("n", "$gte", rng.randint(0, 2)), cond("l", "=", rng.randint(0, 2))])
            r = rng.random()
            many = rng.choice(["updateOne", "updateMany"])
            if r < .25:
                ops.append(mk(many, q, upd("$inc", "n", 1)))
            elif r < .4:
                ops.append(mk(many, q, upd(rng.choice(["$push", "$addToSet"]), rng.choice("ls"), rng.randint(0, 2))))
            elif r < .48:
                ops.append(mk(many, q, upd("$pull", "l", rng.randint(0, 2))))
            elif r < .58:
                nid += 1
                ops.append(mk("insert", docs=[{"_id": nid, "n": rng.randint(0, 2), "l": [t]}]))
            elif r < .64:
                ops.append(mk(rng.choice(["deleteOne", "deleteMany"]), rng.choice([by_id(2), cond("n", "$gte", 2)])))
            elif r < .7:
                ops.append(mk("replaceOne", q, docs=[{"n": t, "l": [t]}]))
            elif r < .78:
                k = rng.choice([1, 2, 3])
                ops.append(mk("upsert", by_id(k), docs=[{"_id": k, "n": 0, "l": [t, t]}]))
            else:
                ops.append(mk(rng.choice(["find", "find", "findone"]), q))
        threads.append(ops)
    return threads
