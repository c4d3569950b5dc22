"""Documents, filters and updates for the document store: generated once, encoded twice (for the
driver as extended JSON, for the specification as its records)."""
import json
from common import *


class F:
    """A filter in the specification's form together with the bson document for the code."""

    def __init__(self, tla, items):
        self.tla, self.items = tla, items  # items: [[key, ext value]]


def V(x):
    v = {"t": "z", "s": [], "n": 0, "d": {}, "o": [], "a": []}
    if x is None:
        return v
    if isinstance(x, bool):
        v.update(t="b", n=int(x))
    elif isinstance(x, int):
        v.update(t="i", n=2 * x)
    elif isinstance(x, float):
        v.update(t="f", n=int(2 * x))
    elif isinstance(x, str):
        v.update(t="s", s=list(x))
    elif isinstance(x, Oid):
        v.update(t="o", s=list(x.hex))
    elif isinstance(x, dict):
        v.update(t="d", d={k: V(y) for k, y in x.items()}, o=list(x))
    elif isinstance(x, list):
        v.update(t="a", a=[V(y) for y in x])
    return v


class Oid:
    def __init__(self, n):
        self.hex = "%024x" % n


def ext(x, rng=None):
    if x is None:
        return ["z"]
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, int):
        return [rng.choice("ijl") if rng else "i", x]
    if isinstance(x, float):
        return ["f", x]
    if isinstance(x, str):
        return ["s", x]
    if isinstance(x, Oid):
        return ["o", x.hex]
    if isinstance(x, dict):
        return ["d", [[k, ext(y, rng)] for k, y in x.items()]]
    return ["a", [ext(y, rng) for y in x]]


def path(p):
    return [{"k": "", "i": int(k)} if k.isdigit() else {"k": k, "i": -1} for k in p.split(".")] if p else []


def tf(f, p="", v=(), fs=()):
    return {"f": f, "p": path(p), "v": list(v), "fs": list(fs)}


def conj(fs):
    return tf("and", fs=[f.tla for f in fs])


def all_of(fs):
    """Several conditions in one document."""
    return F(conj(fs), [i for f in fs for i in f.items])


def nested(x):
    """An array literal with an array in it is not supported."""
    if isinstance(x, dict):
        return any(nested(y) for y in x.values())
    return isinstance(x, list) and any(isinstance(y, list) or nested(y) for y in x)


def unsupported(f):
    return f["f"] == "bad" or any(unsupported(g) for g in f["fs"])


def cond(p, op, val, rng=None):
    """The condition {p: {op: val}} (op "=" for the short form)."""
    e = lambda x: ext(x, rng)
    if (op in ("=", "$eq", "$ne") and nested(val)) or (op in ("$in", "$all") and any(nested(x) for x in val)):
        return F(tf("bad"), [[p, e(val) if op == "=" else ["d", [[op, e(val)]]]]])
    if op == "=":
        return F(tf("eq", p, [V(val)]), [[p, e(val)]])
    if op in ("$eq", "$ne", "$gt", "$gte", "$lt", "$lte"):
        return F(tf(op[1:], p, [V(val)]), [[p, ["d", [[op, e(val)]]]]])
    if op in ("$in", "$all"):
        enc = e(val)
        if op == "$in" and val and all(isinstance(x, int) and not isinstance(x, bool) for x in val) and rng and rng.random() < .3:
            enc = ["ints", val]
        return F(tf(op[1:], p, [V(x) for x in val]), [[p, ["d", [[op, enc]]]]])
    if op == "$exists":
        return F(tf("exists" if val else "missing", p), [[p, ["d", [[op, ["b", val]]]]]])
    if op == "$elemMatch":
        return F(tf(op[1:], p, fs=[val.tla]), [[p, ["d", [[op, ["d", val.items]]]]]])
    if op == "$regex":
        lit, mode = val
        pat = ["%s", "^%s", "%s$", "^%s$"][mode] % lit
        v = V(lit)
        v["n"] = mode
        return F(tf("regex", p, [v]), [[p, ["d", [["$regex", ["s", pat]]]]]])
    raise ValueError(op)


def same_field(fs, p):
    """Several operators in the document of one field."""
    return F(conj(fs), [[p, ["d", [x for f in fs for x in f.items[0][1][1]]]]])


def logic(op, fs):
    if op == "$not":
        return F(tf("not", fs=[fs[0].tla]), [[op, ["d", fs[0].items]]])
    return F(tf({"$and": "and", "$or": "or", "$nor": "nor"}[op], fs=[f.tla for f in fs]),
             [[op, ["a", [["d", f.items] for f in fs]]]])


def bad(items):
    return F(tf("bad"), items)


BAD = [
    bad([["a", ["d", [["$nin", ["a", [["i", 1]]]]]]]]),
    bad([["a", ["d", [["$where", ["s", "x"]]]]]]),
    bad([["a", ["d", [["$type", ["s", "int"]]]]]]),
    bad([["a", ["d", [["$size", ["i", 1]]]]]]),
    bad([["a", ["d", [["$nosuch", ["i", 1]]]]]]),
    bad([["a", ["d", [["$gt", ["s", "x"]]]]]]),
    bad([["a", ["d", [["$in", ["i", 1]]]]]]),
    bad([["a", ["d", [["$exists", ["i", 1]]]]]]),
    bad([["a", ["d", [["$regex", ["i", 1]]]]]]),
    bad([["a", ["d", [["$elemMatch", ["i", 1]]]]]]),
    bad([["a", ["d", [["$all", ["i", 1]]]]]]),
    bad([["a", ["d", [["b", ["d", [["$gt", ["i", 1]]]]]]]]]),
    bad([["a", ["m", [["b", ["i", 1]]]]]]),
    bad([["$or", ["i", 1]]]), bad([["$and", ["d", []]]]), bad([["$nor", ["s", "x"]]]), bad([["$not", ["a", []]]]),
    bad([["$or", ["a", [["i", 1]]]]]), bad([["$gt", ["i", 1]]]), bad([["$expr", ["d", []]]]),
    bad([["a", ["d", [["$gt", ["i", 1]], ["$all", ["a", []]]]]]]),
    bad([["$or", ["a", [["d", [["a", ["d", [["$nosuch", ["i", 1]]]]]]]]]]]),
    bad([["$not", ["d", [["a", ["d", [["$nosuch", ["i", 1]]]]]]]]]),
    bad([["a", ["d", [["$elemMatch", ["d", [["b", ["d", [["$nosuch", ["i", 1]]]]]]]]]]]]),
]

SMALL = [None, True, False, 0, 1, 2, 3, 1.5, 2.0, -1, "x", "xy", "", {}, {"b": 1}, {"b": 2}, {"b": "x"}, {"b": None}, {"b": [1, 2]},
         {"b": {"c": 1}}, {"b": 1, "c": 2}, [], [1], [1, 2], [2, 1], [1, 2, 3], [5, 20], ["x", 1], ["x", "yx"], [None], [{"b": 1}],
         [{"b": 1}, {"b": 2}], [{"b": 1, "c": 2}, {"b": 2, "c": 1}], [{"b": [1, 2]}, {"b": 3}], [{"c": 1}], [3, {"b": 3}],
         [{"b": {"c": 1}}, {"b": {"c": 2}}], [[1, 2]], [1, [2, 3]], [[1], [{"b": 1}], []], [{"b": 1}, [{"b": 2}], 2], {"b": [[1, 2], 3]}]
LITS = [None, True, 0, 1, 2, 1.5, 2.0, "x", {}, {"b": 1}, {"b": 1, "c": 2}, [], [1], [1, 2], [{"b": 1}]]
PATHS = ["a", "a.b", "a.0", "a.1", "a.0.b", "a.b.c", "a.b.0", "a.c"]
NUMOPS = ["$gt", "$gte", "$lt", "$lte"]


def simple_filters():
    out = []
    for p in PATHS:
        for v in LITS:
            if v is None and p != "a":
                continue
            for op in ("=", "$eq", "$ne"):
                out.append(cond(p, op, v))
        for op in NUMOPS:
            for v in (0, 1, 2, 1.5, -1):
                out.append(cond(p, op, v))
        for vs in ([], [1], [1, 2], ["x", 1.5], [True, "xy"], [{"b": 1}], [2.0], [[1, 2]], [[1], "x"], [None], [None, 1]):
            out.append(cond(p, "$in", vs))
            out.append(cond(p, "$all", vs))
        for b in (True, False):
            out.append(cond(p, "$exists", b))
        for mode in range(4):
            for lit in ("x", "y", "xy"):
                out.append(cond(p, "$regex", (lit, mode)))
        for sub in (cond("b", "=", 1), cond("b", "$gt", 1), cond("c", "$exists", False), cond("b", "$ne", 1),
                    all_of([cond("b", "=", 1), cond("c", "=", 2)]), all_of([cond("b", "=", 1), cond("c", "=", 1)]), all_of([])):
            out.append(cond(p, "$elemMatch", sub))
        out.append(same_field([cond(p, "$gt", 5), cond(p, "$lt", 10)], p))
        out.append(same_field([cond(p, "$gte", 1), cond(p, "$ne", 2)], p))
        out.append(same_field([cond(p, "$exists", True), cond(p, "$ne", "x")], p))
        out.append(same_field([cond(p, "$in", [1, 2]), cond(p, "$lt", 2)], p))
    return out


KEYS = ["a", "b", "c"]
STRS = ["x", "y", "xy", "yx", "", "xx"]


def scalar(rng):
    return rng.choice([rng.randint(-3, 6), rng.randint(0, 3), rng.choice(STRS), rng.choice(STRS), rng.randint(-4, 8) / 2.0,
                       rng.random() < .5])


def value(rng, depth, nulls=True):
    r = rng.random()
    if nulls and r < .06:
        return None
    if depth == 0 or r < .5:
        return scalar(rng)
    if r < .75:
        return {k: value(rng, depth - 1, nulls) for k in KEYS if rng.random() < .6}
    n = rng.randint(0, 3)
    if depth > 1 and rng.random() < .25:
        return [value(rng, depth - 1, nulls) for _ in range(n)]
    if rng.random() < .5:
        return [scalar(rng) for _ in range(n)]
    return [{k: value(rng, max(0, depth - 2), nulls) for k in KEYS if rng.random() < .6} for _ in range(n)]


def document(rng, nulls=True, depth=3):
    return {k: value(rng, depth - 1, nulls) for k in KEYS if rng.random() < .75}


def paths_of(v, pre=""):
    """The paths that lead somewhere in a value."""
    out = []
    if isinstance(v, dict):
        for k, y in v.items():
            if k == "_id":
                continue
            out.append(pre + k)
            out += paths_of(y, pre + k + ".")
    elif isinstance(v, list):
        for i, y in enumerate(v):
            if pre:
                out.append(pre + str(i))
                out += paths_of(y, pre + str(i) + ".")
                if isinstance(y, dict):
                    out += paths_of(y, pre)
    return out


def at(v, p):
    """Some value a path leads to."""
    for k in p.split("."):
        if isinstance(v, list):
            if k.isdigit():
                if int(k) >= len(v):
                    return None
                v = v[int(k)]
                continue
            v = next((e for e in v if isinstance(e, dict) and k in e), None)
        if not isinstance(v, dict) or k not in v:
            return None
        v = v[k]
    return v


def sorted_value(v):
    if isinstance(v, dict):
        return {k: sorted_value(v[k]) for k in sorted(v)}
    if isinstance(v, list):
        return [sorted_value(x) for x in v]
    return v


def rand_cond(rng, docs, depth=0):
    d = rng.choice(docs)
    ps = paths_of(d)
    p = rng.choice(ps) if ps and rng.random() < .85 else ".".join(rng.choice(KEYS) for _ in range(rng.randint(1, 3)))
    here = at(d, p)
    op = rng.choice(["=", "=", "$eq", "$ne", "$gt", "$gte", "$lt", "$lte", "$in", "$all", "$exists", "$elemMatch", "$regex", "two"])
    lit = here if rng.random() < .7 else scalar(rng)
    if lit is None:
        lit = scalar(rng)
    lit = sorted_value(lit)
    if op in ("=", "$eq", "$ne"):
        if rng.random() < .05:
            return cond(rng.choice(KEYS), op, None, rng)
        return cond(p, op, lit, rng)
    if op in NUMOPS:
        n = lit if isinstance(lit, (int, float)) and not isinstance(lit, bool) else rng.randint(-1, 4)
        return cond(p, op, rng.choice([n, n, n - 1, n + 1, n + .5 if isinstance(n, int) else n]), rng)
    if op in ("$in", "$all"):
        vs = [x for x in (here if isinstance(here, list) else [here]) if x is not None][:2]
        vs = [sorted_value(x) for x in vs]
        vs += [scalar(rng) for _ in range(rng.randint(0, 2))] if rng.random() < .5 else []
        return cond(p, op, vs, rng)
    if op == "$exists":
        return cond(p, op, rng.random() < .5)
    if op == "$regex":
        s = lit if isinstance(lit, str) and lit else rng.choice(["x", "y", "xy"])
        return cond(p, op, (s, rng.randrange(4)))
    if op == "$elemMatch":
        sub = [x for x in here if isinstance(x, dict)] if isinstance(here, list) else []
        fs = [rand_cond(rng, sub or [{"b": 1}], depth + 1) for _ in range(rng.randint(1, 2))]
        return cond(p, op, all_of(fs))
    a, b = rng.choice([("$gt", "$lt"), ("$gte", "$lte"), ("$gte", "$ne"), ("$lt", "$gt")])
    n = rng.randint(-1, 3)
    return same_field([cond(p, a, n, rng), cond(p, b, n + rng.randint(0, 3), rng)], p)


def rand_filter(rng, docs, depth=2):
    r = rng.random()
    if depth == 0 or r < .35:
        return rand_cond(rng, docs)
    if r < .55:
        fs, used = [], set()
        for _ in range(rng.randint(1, 3)):
            fs.append(rand_filter(rng, docs, 0))
        return all_of(fs)
    if r < .6:
        return logic("$not", [rand_filter(rng, docs, depth - 1)])
    if r < .63:
        return rng.choice(BAD)
    op = rng.choice(["$and", "$or", "$nor"])
    return logic(op, [rand_filter(rng, docs, depth - 1) for _ in range(rng.randint(1, 3))])


# ------------------------------------------------------------------ updates
class U:
    def __init__(self, us, items, is_bad=False):
        self.tla, self.items, self.bad = us, items, is_bad


BADU = [[["$rename", ["d", [["a", ["s", "b"]]]]]], [["$mul", ["d", [["a", ["i", 2]]]]]], [["a", ["i", 1]]],
        [["$set", ["i", 1]]], [["$inc", ["d", [["a", ["s", "x"]]]]]], [["$inc", ["a", []]]],
        [["$push", ["d", [["a", ["d", [["$each", ["a", []]]]]]]]]], [["$addToSet", ["d", [["a", ["d", [["$each", ["a", []]]]]]]]]],
        [["$pull", ["d", [["a", ["d", [["$in", ["a", []]]]]]]]]], [["$unset", ["s", "a"]]],
        [["$set", ["d", [["a", ["i", 1]]]]], ["$nosuch", ["d", []]]]]


def update_path(rng, doc, op):
    ps = paths_of(doc)
    r = rng.random()
    if ps and r < .7:
        p = rng.choice(ps)
    elif ps and r < .85:
        p = rng.choice(ps) + "." + rng.choice(KEYS + ["n"])
    else:
        p = ".".join(rng.choice(KEYS + ["n", "m"]) for _ in range(rng.randint(1, 3)))
    v = at(doc, p)
    if isinstance(v, list) and rng.random() < .3:
        p += "." + str(rng.randint(0, len(v) + 1))
    return p


def one_update(rng, doc):
    op = rng.choice(["$set", "$set", "$unset", "$inc", "$push", "$addToSet", "$pull"])
    p = update_path(rng, doc, op)
    v = at(doc, p)
    if op == "$inc":
        for _ in range(8):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                break
            p = update_path(rng, doc, op)
            v = at(doc, p)
        n = rng.randint(-3, 3)
        return {"op": "inc", "p": path(p), "v": V(n), "q": []}, op, p, ext(n, rng)
    if op in ("$push", "$addToSet", "$pull"):
        for _ in range(12):
            if isinstance(v, list):
                break
            p = update_path(rng, doc, op)
            v = at(doc, p)
    if op == "$unset":
        return {"op": "unset", "p": path(p), "v": V(""), "q": []}, op, p, ["s", ""]
    if op == "$set":
        x = value(rng, 2) if rng.random() < .9 else None
        return {"op": "set", "p": path(p), "v": V(x), "q": []}, op, p, ext(x, rng)
    el = [x for x in v if x is not None] if isinstance(v, list) else []
    x = rng.choice(el) if el and rng.random() < .7 else scalar(rng)
    if rng.random() < .1:
        x = {"b": rng.randint(0, 2)}
    if op == "$pull" and isinstance(x, dict):
        fs = []
        for k, y in list(x.items())[:2]:
            if y is None or isinstance(y, (dict, list)):
                continue
            if isinstance(y, (int, float)) and not isinstance(y, bool):
                fs.append(cond(k, rng.choice(["=", "$gt", "$lte", "$gte"]), y, rng))
            else:
                fs.append(cond(k, "=", y, rng))
        if not fs:
            fs = [cond("b", "$gte", 1, rng)]
        f = all_of(fs)
        return {"op": "pull", "p": path(p), "v": V(None), "q": [f.tla]}, op, p, ["d", f.items]
    if op == "$pull" and isinstance(x, list):
        x = scalar(rng)
    return {"op": op[1:], "p": path(p), "v": V(x), "q": []}, op, p, ext(x, rng)


def conflict(p, q):
    a, b = p.split("."), q.split(".")
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def rand_update(rng, docs):
    if rng.random() < .05:
        return U([], rng.choice(BADU), True)
    us, groups, used = [], [], []
    d = rng.choice(docs)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        u, op, p, e = one_update(rng, d)
        if any(conflict(p, q) for q in used):
            continue
        # numbers and names below the same parent, or through the same array, would interact
        used.append(p)
        us.append((u, op, p, e))
    # operators appear once each, in the order in which they are first used
    order = []
    for _, op, _, _ in us:
        if op not in order:
            order.append(op)
    items = [[op, ["d", [[p, e] for _, o, p, e in us if o == op]]] for op in order]
    tla = [u for op in order for u, o, _, _ in us if o == op]
    return U(tla, items)


# ------------------------------------------------------------------ running
def mk(op, filter=None, update=None, docs=None, hold=0, dump=False, as_="", coll="a/a", rng=None, proj=()):
    docs = docs or []
    drv = {"op": op, "hold": hold, "dump": dump, "as": as_, "coll": coll, "proj": list(proj)}
    tla = {"op": "upsert" if op == "upsertID" else op, "hold": hold, "bad": False, "us": [], "ordered": as_ != "m", "proj": list(proj),
           "q": filter.tla if filter else tf("and"), "docs": [V(d) for d in docs]}
    drv["filter"] = ["d", filter.items if filter else []]
    if update:
        drv["update"] = ["d", update.items]
        tla["us"] = update.tla
        tla["bad"] = update.bad
    drv["docs"] = [ext(d, rng) for d in docs]
    if rng and rng.random() < .25 and not update:
        drv["docs"] = [["m", e[1]] for e in drv["docs"]]
        tla["ordered"] = False
    return drv, tla


def run_cases(ctx, cases, race=False, what="the document store", chunk=400, validate=True, store="simple"):
    """cases: list of lists (threads) of (driver op, spec op). One collection per case unless the ops
    name several; histories are split per collection."""
    binary = ctx.build("./cmd/drv_nosql", race=race)
    inp, out = ctx.path("cases%d.json" % ctx._n), ctx.path("nosql%d.ndjson" % ctx._n)
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps({"threads": [[o[0] for o in t] for t in c]}) + "\n")
    r, crash = run_driver(ctx, binary, [out, inp, store], timeout=240)
    if crash:
        if REPO + "/" not in crash["text"]:
            raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
        ctx.violation("%s: %s" % (what, crash.get("first", crash["kind"])), crash)
        return
    if not validate:
        return
    recs = read_ndjson(out)
    if len(recs) != len(cases) and "GAVE-UP" not in r.stdout:
        raise CheckError("driver recorded %d of %d cases" % (len(recs), len(cases)))
    traces, info = [], []
    for c, evs in zip(cases, recs):
        got = {(e["t"], e["i"]): e["got"] for e in evs if e["e"] == "ret"}
        colls = sorted({o[0]["coll"] for t in c for o in t})
        for name in colls:
            tr = [{"e": "init", "mongo": store == "mongo"}]
            for e in evs:
                if e["e"] == "env":
                    tr.append(e)
                    continue
                drv, tla = c[e["t"]][e["i"]]
                if drv["coll"] != name:
                    continue
                if e["e"] == "call":
                    op = dict(tla)
                    g = got.get((e["t"], e["i"]))
                    op["got"] = g or {}
                    tr.append({"e": "call", "t": e["t"] + 1, "op": op})
                else:
                    tr.append({"e": "ret", "t": e["t"] + 1, "res": {"ok": e["got"]["panic"] == ""}})
            traces.append(tr)
            info.append((c, evs))
    ctx.sample([o[0] for t in cases[0] for o in t][:4])
    bad_ = ctx.validate("NoSqlTrace", traces, chunk=chunk)
    for i, reached in bad_[:5]:
        ev = traces[i][reached] if reached < len(traces[i]) else {}
        c, evs = info[i]
        # the operation that is not explained
        calls = [e for e in traces[i][:reached + 1] if e["e"] == "call"]
        k = reached
        last = calls[-1]["op"] if calls else {}
        drv = None
        n = 0
        for e in evs:
            if e["e"] == "call" and c[e["t"]][e["i"]][1]["op"] == last.get("op"):
                drv = c[e["t"]][e["i"]][0]
            if e["e"] != "env":
                n += 1
            if n >= reached:
                break
        ctx.violation("%s: %s not explained: filter %s update %s" % (what, last.get("op"), json.dumps((drv or {}).get("filter"))[:200], json.dumps((drv or {}).get("update"))[:200]),
                      {"op": drv, "explained_prefix": reached, "got": last.get("got"), "trace": traces[i][:reached + 2]})
    return traces


# ------------------------------------------------------------------ small updates, exhaustively
def upd(op, p, x, q=None):
    """The update {$op: {p: x}}; q: the condition a $pull takes instead of a value."""
    if q is not None:
        return U([{"op": "pull", "p": path(p), "v": V(None), "q": [q.tla]}], [["$pull", ["d", [[p, ["d", q.items]]]]]])
    name = op[1:]
    v = V("") if op == "$unset" else V(x)
    return U([{"op": name, "p": path(p), "v": v, "q": []}], [[op, ["d", [[p, ext(x)]]]]])


def simple_updates():
    out = []
    for p in PATHS + ["n", "n.m", "a.b.n", "a.3", "a.1.b"]:
        for x in (None, 7, "x", {"b": 1}, [1, 2], 1.5, False):
            out.append(upd("$set", p, x))
        out.append(upd("$unset", p, ""))
        for x in (1, -2, 0):
            out.append(upd("$inc", p, x))
        for x in (1, "x", 2.0, {"b": 1}, [1], True):
            out.append(upd("$push", p, x))
            out.append(upd("$addToSet", p, x))
        for x in (1, "x", 2.0, True):
            out.append(upd("$pull", p, x))
        for q in (cond("b", "=", 1), cond("b", "$gte", 2), all_of([cond("b", "=", 1), cond("c", "=", 2)])):
            out.append(upd("$pull", p, None, q))
    return out
