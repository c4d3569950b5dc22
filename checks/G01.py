import re
from common import *

NAMES = ["a", "b", "svc.grpc.addr", "svc-2", "x_y", "9lives", "Q.r", "a.b", "d1", "e", "f.g.h", "k", "m__n", "..z", "u v"]


def envvar(n):
    """Only used to make inputs: likely names of variables; the oracle is the specification."""
    c = re.sub(r"[^a-zA-Z0-9 ]+", "_", n)
    return re.sub(r"^[0-9]+", "", c).upper()


def definition(kind="node", deps=(), fails=0, val="", child=0, get=""):
    return {"kind": kind, "deps": list(deps), "fails": fails, "val": val, "child": child, "get": get}


def case(rng, concurrent=False, chain=False):
    nb = rng.randint(4, 5) if chain else rng.choice([1, 2, 2, 3, 3, 4])
    names = rng.sample(NAMES, rng.randint(3, 9))
    always = 99
    # a name is an argument of one builder at most: the flags of a process are global
    argof = {}
    for n in names:
        if rng.random() < .35:
            argof[n] = (rng.choice([0, rng.randrange(nb), nb - 1]), rng.choice(["req", "req", "opt"]))
    bs = []
    # children come later; a builder can only make namespaces of later ones; the parents of builder i
    # are the builders below i
    order_of = {n: i for i, n in enumerate(names)}
    for i in range(nb):
        defs = {}
        for n in names:
            here = n in argof and argof[n][0] == i
            p = .2 if here else (.6 if i == 0 else .1 if chain else .35)
            if rng.random() >= p:
                continue
            r = rng.random()
            below = [m for m in names if order_of[m] > order_of[n]]
            if r < .15 or here:
                defs[n] = definition("value", val="v%d%s" % (i, rng.choice("xyz")))
            elif r < .28 and i + 1 < nb:
                c = rng.randint(i + 1, nb - 1)
                defs[n] = definition("child", child=c + 1, get=rng.choice(names))
            else:
                f = 0
                if rng.random() < .15:
                    f = always if concurrent else rng.choice([1, 2, always])
                defs[n] = definition("node", deps=[rng.choice(below) for _ in range(rng.randint(0, 3))] if below else [], fails=f)
        bs.append({"defs": defs, "req": [n for n, (j, k) in argof.items() if j == i and k == "req"],
                   "opt": [n for n, (j, k) in argof.items() if j == i and k == "opt"],
                   "inst": [n for n in names if rng.random() < .12]})
    return bs, names, argof


def acyclic(bs):
    """Whether looking up a name cannot end in itself, through whatever namespace: an
    over-approximation by names, since a child may ask its parent for what the parent is building."""
    edges = {}
    for b in bs:
        for n, d in b["defs"].items():
            e = edges.setdefault(n, set())
            e.update(d["deps"])
            if d["kind"] == "child":
                e.add(d["get"])
                e.update(bs[d["child"] - 1]["inst"])
    seen, onpath = set(), set()

    def visit(n):
        if n in onpath:
            return False
        if n in seen:
            return True
        onpath.add(n)
        ok = all(visit(m) for m in edges.get(n, ()))
        onpath.discard(n)
        seen.add(n)
        return ok
    return all(visit(n) for n in edges)


def make(rng, concurrent):
    chain = rng.random() < .12
    while True:
        bs, names, argof = case(rng, concurrent, chain)
        if acyclic(bs):
            break
    args, flags, env = [], [], {}
    for n in argof:
        r = rng.random()
        if r < .4 or (concurrent and r < .8):
            v = "flag%s" % rng.choice("xyz")
            if rng.random() < .1:
                v = ""
            form = rng.choice(["-%s=%s", "--%s=%s", "two"])
            if form == "two":
                args += ["-" + n, v]
            else:
                args.append(form % (n, v))
            flags.append({"name": n, "val": v})
        if rng.random() < .4:
            env[envvar(n) or "EMPTY"] = rng.choice(["envx", "envy", ""])
        if rng.random() < .1:
            env[n.upper().replace(".", "") + "_"] = "other"
    env = {k: v for k, v in env.items() if k and "=" not in k}
    ops0 = [{"op": "build", "b": 1, "parent": "", "slot": "s0"}]
    slots = ["s0"]
    bof = {"s0": 0}

    def more(k, allow_build):
        out = []
        for _ in range(k):
            if allow_build and len(bs) > 1 and rng.random() < .25:
                parent = rng.choice([slots[-1], rng.choice(slots)])
                cands = [j for j in range(bof[parent] + 1, len(bs))]
                if cands:
                    j = rng.choice([cands[0], rng.choice(cands)])
                    s = "s%d" % len(slots)
                    out.append({"op": "build", "b": j + 1, "parent": parent, "slot": s})
                    slots.append(s)
                    bof[s] = j
                    continue
            out.append({"op": "get", "slot": rng.choice(slots), "name": rng.choice(names + ["nosuch"]),
                        "as": rng.choice(["", "", "", "string"])})
        return out
    if chain:
        for j in range(1, len(bs)):
            ops0.append({"op": "build", "b": j + 1, "parent": slots[-1], "slot": "s%d" % j})
            slots.append("s%d" % j)
            bof["s%d" % j] = j
    if concurrent:
        ops0 += [o for o in more(5, True) if o["op"] == "build"]
        ops = [ops0] + [more(rng.randint(1, 4), False) for _ in range(rng.choice([2, 3]))]
    else:
        ops = [ops0 + more(rng.randint(2, 14), True)]
    for t in ops:
        for o in t:
            for k, v in (("b", 0), ("parent", ""), ("slot", ""), ("name", ""), ("as", "")):
                o.setdefault(k, v)
    order = [rng.sample(list(b["defs"]), len(b["defs"])) for b in bs]
    drv = {"b": bs, "args": args, "environ": env, "ops": ops, "order": order}
    allnames = set(names)
    tla = {"b": [dict(b, defs=dict(b["defs"])) for b in bs], "flags": flags,
           "env": [{"var": list(k), "val": v} for k, v in sorted(env.items())], "chars": {n: list(n) for n in allnames}}
    return drv, tla


def explain(ctx, cases, race=False, validate=True, what="namespace"):
    binary = ctx.build("./cmd/drv_nsbuild", race=race)
    ctx._n += 1
    inp, out = ctx.path("ns%d.json" % ctx._n), ctx.path("ns%d.ndjson" % ctx._n)
    with open(inp, "w") as f:
        for d, _ in cases:
            f.write(json.dumps(d) + "\n")
    r, crash = run_driver(ctx, binary, [out, inp], timeout=200)
    if crash:
        if REPO + "/" not in crash["text"]:
            raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
        ctx.violation("%s: %s" % (what, crash.get("first", crash["kind"])), crash)
        return
    if not validate:
        return
    recs = read_ndjson(out)
    if len(recs) != len(cases) and "GAVE-UP" not in r.stdout:
        raise CheckError("driver recorded %d of %d cases" % (len(recs), len(cases)))
    traces = []
    for (d, tla), evs in zip(cases, recs):
        tr = [{"e": "init", "case": tla}]
        rets = {(e["t"], e["i"]): e["res"] for e in evs if e["e"] == "ret"}
        failed = set()
        for e in evs:
            if e["e"] == "counts":
                op = {"op": "counts", "counts": e["counts"]}
                tr.append({"e": "call", "t": 1, "op": op})
                tr.append({"e": "ret", "t": 1, "res": {"ok": True, "v": ""}})
            elif e["e"] == "env":
                tr.append(e)
            elif e["e"] == "call":
                res = rets.get((e["t"], e["i"]))
                op = dict(d["ops"][e["t"]][e["i"]])
                op["logged"] = bool(res and "log" in res)
                op["log"] = res["log"] if op["logged"] else []
                tr.append({"e": "call", "t": e["t"] + 1, "op": op})
            else:
                tr.append({"e": "ret", "t": e["t"] + 1, "res": {"ok": e["res"]["ok"], "v": e["res"]["v"]}})
        traces.append(tr)
    ctx.sample({"case": cases[0][0]["b"], "events": traces[0][1:6]})
    for i, reached in ctx.validate("NsBuildTrace", traces)[:5]:
        t = traces[i]
        ctx.violation("%s: event %d %s" % (what, reached, json.dumps(t[reached] if reached < len(t) else None)[:200]),
                      {"explained_prefix": reached, "case": cases[i][0], "trace": t})


def check(ctx):
    rng = ctx.rng
    seq = [make(rng, False) for _ in range(ctx.pick(2500, 20000))]
    explain(ctx, seq)
    ctx.instrument(["runtime/plugins/golang"])
    con = [make(rng, True) for _ in range(ctx.pick(600, 6000))]
    explain(ctx, con, what="concurrent use of a namespace")
    explain(ctx, [make(rng, True) for _ in range(ctx.pick(100, 500))], race=True, validate=False, what="concurrent use of a namespace")
