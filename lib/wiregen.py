"""Wiring programs for drv_wire, and their validation against WireTrace."""
from common import *

STYPES = ["S1", "S2", "S3"]
NTYPES = ["T1", "T2", "T3"]
FIELDS = {"name": "", "type": "", "deps": [], "fails": False, "reads": [], "accepts": [], "to": "", "uniq": "",
          "ptr": "", "iface": False, "ctype": "", "stype": "", "reach": "", "ns": "", "key": "", "val": "", "names": []}


def op(o, **kw):
    d = dict(FIELDS, op=o)
    for k in kw:
        assert k in FIELDS, k
    d.update(kw)
    return d


def dep(n, how="get"):
    return {"n": n, "how": how}


def names_program(rng):
    """Definitions, aliases and properties that replace each other in any order."""
    pool = ["n%d" % i for i in range(rng.randint(3, 6))]
    ops, out = [], []
    alias = {}

    def cyclic(n):
        seen = set()
        while n in alias:
            if n in seen:
                return True
            seen.add(n)
            n = alias[n]
        return False
    for _ in range(rng.randint(4, 16)):
        n = rng.choice(pool)
        r = rng.random()
        if r < .33:
            deps = [dep(rng.choice(pool), rng.choice(["get", "get", "inst", "try"])) for _ in range(rng.choice([0, 0, 1, 2]))]
            fails = not deps and rng.random() < .1
            reads = [rng.choice(pool)] if rng.random() < .3 else []
            out.append(op("define", name=n, type=rng.choice(STYPES), deps=deps, fails=fails, reads=reads))
            alias.pop(n, None)
        elif r < .62:
            to = rng.choice(pool + ["undefined"])
            old = alias.get(n)
            alias[n] = to
            if cyclic(n) and rng.random() < .7:
                if old is None:
                    del alias[n]
                else:
                    alias[n] = old
                continue
            out.append(op("alias", name=n, to=to))
        elif r < .8 and not cyclic(n):
            out.append(op(rng.choice(["set", "add", "add"]), name=n, key=rng.choice(["k", "k", "j"]), val=rng.choice("uvw")))
            while n in alias:
                n = alias[n]
        elif r < .85:
            out.append(op("prop", name=n, key=rng.choice(["k", "j"])))
        elif r < .93:
            out.append(op("names", names=pool))
        elif r < .95:
            out.append(op("error"))
        else:
            out.append(op("build", names=[rng.choice(pool)]))
    for n in pool:
        out.append(op("prop", name=n, key="k"))
    out.append(op("names", names=pool))
    # "try" is only used where what fails has no effect of its own
    bad = {o["name"] for o in out if o["op"] == "define" and (o["fails"] or o["deps"])}
    ok = True
    for o in out:
        for d in o["deps"]:
            if d["how"] == "try":
                d["how"] = "get"
    for _ in range(rng.randint(1, 3)):
        out.append(op("build", names=rng.sample(pool, rng.randint(1, 2)) if rng.random() < .9 else []))
    return out


def place_program(rng):
    """Nodes that need each other, in nested namespaces that take some types of nodes each."""
    out = []
    deep = rng.random() < .4
    nns = rng.randint(3, 5) if deep else rng.randint(1, 5)
    nss = ["ns%d" % i for i in range(nns)]
    nst = {}
    for i, n in enumerate(nss):
        t = "T%d" % max(1, 3 - i) if deep else rng.choice(NTYPES)
        nst[n] = t
        acc = rng.sample(STYPES, rng.choice([0, 1, 1, 2])) + [x for x in NTYPES if x < t and rng.random() < .8]
        out.append(op("ns", name=n, type=t, accepts=acc))
    clean = rng.random() < .6
    k = rng.randint(2, 9)
    names = ["x%d" % i for i in range(k)]
    als = ["a%d" % i for i in range(rng.randint(0, 3))]
    failing = {n for n in names if rng.random() < .08 and not clean}
    for i, n in enumerate(names):
        deps = []
        if n not in failing:
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                lower = names[:i] + (als if names[:i] or not clean else [])
                if rng.random() < .05 and not clean:
                    lower = names
                if rng.random() < .02 and not clean:
                    lower = ["undefined"]
                if not lower:
                    continue
                r = rng.random()
                if r < .06:
                    deps.append(dep(rng.choice(nss)))
                elif r < .16 and (failing or als):
                    x = rng.choice(sorted(failing) + ["undefined"])
                    if x in failing and names.index(x) < i or x == "undefined":
                        # a node that can never be built, asked for twice
                        deps += [dep(x, "try")] * rng.choice([1, 2])
                elif r < .2:
                    deps.append(dep(rng.choice(STYPES + NTYPES), "put"))
                elif r < .34:
                    deps.append(dep(rng.choice(lower), "inst"))
                else:
                    deps.append(dep(rng.choice(lower)))
        reads = [rng.choice(names + als)] if rng.random() < .15 else []
        out.append(op("define", name=n, type=rng.choice(STYPES), deps=deps, fails=n in failing, reads=reads))
    for i, a in enumerate(als):
        to = rng.choice(names + als[:i])
        if clean:
            # after everything that uses the alias
            users = [j for j, n in enumerate(names) for o in out if o["name"] == n and any(d["n"] == a for d in o["deps"])]
            to = rng.choice(names[:min(users)] if users and min(users) else names if not users else names[:1])
            if users and not min(users):
                continue
        out.append(op("alias", name=a, to=to))
        if to in failing:
            holder = rng.choice(names)
            for o in out:
                if o["op"] == "define" and o["name"] == holder and holder not in failing:
                    o["deps"] += [dep(a, "try"), dep(a, "try")]
    # an alias of a failing node asked for by "get" is an error as well; keep most programs buildable
    for _ in range(rng.randint(1, 2 * nns + 2)):
        n = rng.choice(nss)
        r = rng.random()
        if r < (.55 if deep else .3):
            j = nss.index(n)
            c = rng.choice(nss[j + 1:] or names)
        else:
            c = rng.choice(names + als)
        if c in failing and rng.random() < .9:
            continue
        out.append(op("child", ns=n, name=c, type=nst[n]))
    if deep:
        for a, b in zip(nss, nss[1:3]):
            out.append(op("child", ns=a, name=b, type=nst[a]))
        for _ in range(rng.randint(1, 3)):
            c = rng.choice([x for x in names + als if x not in failing] or ["undefined"])
            out.append(op("child", ns=rng.choice(nss[1:3]), name=c, type=rng.choice(NTYPES)))
        for o in out:
            if o["op"] == "ns" and o["name"] in nss[:2]:
                o["accepts"] = sorted(set(o["accepts"]) | ({"T1", "T2"} if o["name"] == nss[0] else {"T1"}))
                if rng.random() < .4:
                    o["accepts"] = [x for x in o["accepts"] if x in NTYPES]
            if o["op"] == "ns" and o["name"] == nss[2] and rng.random() < .7:
                o["accepts"] = rng.sample(STYPES, 2)
    if rng.random() < .3:
        for _ in range(3):
            out.append(op(rng.choice(["set", "add"]), name=rng.choice(names + als), key="k", val=rng.choice("uvw")))
    if rng.random() < .5:
        rng.shuffle(out)
    for _ in range(rng.randint(1, 2)):
        out.append(op("build", names=rng.sample(nss + names, rng.randint(1, 3)) if not deep else
                      [nss[0]] + rng.sample(nss[1:] + names, rng.choice([0, 0, 1, 2]))))
    return out


def service_program(rng):
    """Services behind pointers, with modifiers on both sides, deployed to processes and containers."""
    out = []
    clean = rng.random() < .5
    procs = ["p%d" % i for i in range(rng.randint(0, 3))]
    ctrs = ["c%d" % i for i in range(rng.choice([0, 0, 1, 2]))]
    ctrof = {p: rng.choice(ctrs) if ctrs and rng.random() < .7 else None for p in procs}
    sacc = rng.choice([["S1", "S2"], ["S1", "S2"], ["S1"], ["S1", "S2", "S3"]])
    for p in procs:
        out.append(op("ns", name=p, type="T1", accepts=sacc if clean or rng.random() < .9 else ["S2"]))
    for c in ctrs:
        out.append(op("ns", name=c, type="T2", accepts=["T1"] + rng.choice([[], [], ["S3"], ["T3"]])))
    svcs = ["s%d" % i for i in range(rng.randint(1, 4))]
    later = []
    for i, s in enumerate(svcs):
        r = rng.random()
        targets = svcs[:i]
        if rng.random() < .07 and not clean:
            targets = svcs
        deps = [dep(rng.choice(targets)) for _ in range(rng.choice([0, 1, 1, 2]))] if targets else []
        t = rng.choice(["S1", "S1", "S1", "S2", "S3"][:3 if clean else 5])
        out.append(op("define", name=s + ".handler", type=t, deps=deps))
        uniq = rng.choice(["App", "App", "App", "", "T1", "T2"])
        to = s + ".handler"
        if rng.random() < .1:
            out.append(op("alias", name=s + ".alias", to=to))
            to = s + ".alias"
        out.append(op("ptr", name=s, to=to, type=t, uniq=uniq))
        steps = []
        for j in range(rng.choice([0, 0, 1, 2])):
            steps.append(("src", j))
        for j in range(rng.choice([0, 0, 1])):
            steps.append(("dst", j))
        rng.shuffle(steps)
        rpc = rng.random() < (.9 if clean and procs else .65)
        if rpc:
            steps.insert(rng.randint(0, len(steps)), ("rpc", 0))
            if rng.random() < .3:
                steps.append(("src", 7))
            if rng.random() < .3:
                steps.append(("dst", 7))
            if rng.random() < .08 and not clean:
                steps.append(("rpc", 1))
        if procs and rng.random() < (.95 if clean else .85 if rpc else .6):
            p = rng.choice(procs)
            steps.append(("child", p, "T1"))
            if clean and ctrof[p]:
                steps.append(("child", ctrof[p], "T2"))
            if ctrs and rng.random() < .4 and not clean:
                steps.append(("child", rng.choice(ctrs), "T2"))
            if rng.random() < .04 and not clean:
                steps.append(("child", rng.choice(procs), "T1"))
        put_off = False
        for st in steps:
            if st[0] == "src":
                o = op("src", ptr=s, name="%s.src%d" % (s, st[1]), type=rng.choice(["S1", "S1", "S2"]),
                       deps=[dep(rng.choice(targets))] if targets and rng.random() < .15 else [])
            elif st[0] == "dst":
                o = op("dst", ptr=s, name="%s.dst%d" % (s, st[1]), type=rng.choice(["S1", "S1", "S2"]), iface=rng.random() < .8,
                       deps=[dep(rng.choice(targets))] if targets and rng.random() < .15 else [])
            elif st[0] == "rpc":
                o = op("rpc", ptr=s, name="%s.rpc%d" % (s, st[1]), ctype=rng.choice(["S1", "S1", "S2"]), stype=rng.choice(["S1", "S1", "S2"]),
                       reach="App" if clean else rng.choice(["App", "App", "App", "App", "T2", "S3", "T3"]))
            else:
                o = op("child", ns=st[1], name=s, type=st[2])
            # what is done to one service may be interleaved with what is done to others
            put_off = put_off or rng.random() < .1
            (later if put_off else out).append(o)
    out += later
    for p in procs:
        if clean:
            continue
        if ctrs and rng.random() < .5:
            out.append(op("child", ns=rng.choice(ctrs), name=p, type="T2"))
        if rng.random() < .2:
            out.append(op("child", ns=p, name="undefined" if rng.random() < .1 else rng.choice(svcs) + ".handler", type="T1"))
    for _ in range(rng.randint(1, 2)):
        out.append(op("build", names=rng.sample(svcs + procs + ctrs, rng.randint(1, min(4, len(svcs + procs + ctrs))))))
    return out


def unique_program(rng):
    """Services that must be unique in the application, per process, per container or not at all, used
    from several processes with and without RPC."""
    out = []
    deep = rng.random() < .4
    procs = ["p%d" % i for i in range(rng.randint(1, 4))]
    ctrs = ["c%d" % i for i in range(rng.randint(1, 3))] if deep else []
    for p in procs:
        out.append(op("ns", name=p, type="T1", accepts=rng.choice([["S1"], ["S1", "S2"], ["S1", "S2"], ["S2"]])))
    for c in ctrs:
        out.append(op("ns", name=c, type="T2", accepts=["T1"] + rng.choice([[], ["S1"], ["S3"]])))
    svcs = ["s%d" % i for i in range(rng.randint(1, 3))]
    for s in svcs:
        t = rng.choice(["S1", "S1", "S2", "S3"])
        out.append(op("define", name=s + ".handler", type=t))
        target = s + ".handler"
        if rng.random() < .25:
            out.append(op("alias", name=s + ".alias", to=target))
            if rng.random() < .7:
                out.append(op("unique", name=s + ".alias", type=rng.choice(["App", "T1", "T2", "T3", "S3"])))
            target = s + ".alias"
        out.append(op("ptr", name=s, to=target, type=t, uniq=rng.choice(["App", "App", "App", "T1", "T2", "T3", "S3", ""])))
        if rng.random() < .25:
            out.append(op("src", ptr=s, name=s + ".srcmod", type="S1"))
        if rng.random() < .25:
            out.append(op("rpc", ptr=s, name=s + ".rpc", ctype="S1", stype="S1", reach=rng.choice(["App", "App", "T2", "S3"])))
            if rng.random() < .6:
                out.append(op("child", ns=rng.choice(procs), name=s, type="T1"))
                if ctrs and rng.random() < .5:
                    out.append(op("child", ns=rng.choice(ctrs), name=s, type="T2"))
    users = []
    for i in range(rng.randint(1, 4)):
        u = "u%d" % i
        deps = [dep(rng.choice(svcs + [s + ".handler" for s in svcs] if rng.random() < .2 else svcs)) for _ in range(rng.choice([1, 1, 2]))]
        out.append(op("define", name=u, type=rng.choice(["S1", "S2"]), deps=deps))
        users.append(u)
        for p in rng.sample(procs, rng.choice([0, 1, 1, 1, 2]) if len(procs) > 1 else 1):
            out.append(op("child", ns=p, name=u, type="T1"))
    for p in procs:
        if ctrs and rng.random() < .7:
            for c in rng.sample(ctrs, rng.choice([1, 1, 2]) if len(ctrs) > 1 else 1):
                out.append(op("child", ns=c, name=p, type="T2"))
        if rng.random() < .15:
            out.append(op("child", ns=p, name=rng.choice(svcs), type="T1"))
    tops = procs + ctrs * 2 + users + svcs
    for _ in range(rng.randint(1, 2)):
        out.append(op("build", names=rng.sample(sorted(set(tops)), min(len(set(tops)), rng.randint(1, 3)))))
    return out


MC = """SPECIFICATION Spec
CONSTANTS MaxOps = %d
 Catalogue = {"a.src1","a.src2","a.dst1","a.rpc","b.rpc","a@p","b@q","b@p","a@c","p@c","q@c","free"}
INVARIANTS %s
"""


def explain(ctx, programs, what, chunk=150):
    binary = ctx.build("./cmd/drv_wire")
    ctx._n += 1
    inp, out = ctx.path("w%d.json" % ctx._n), ctx.path("w%d.ndjson" % ctx._n)
    with open(inp, "w") as f:
        for c in programs:
            f.write(json.dumps(c) + "\n")
    r, crash = run_driver(ctx, binary, [out, inp], timeout=60)
    if crash:
        if REPO + "/" not in crash["text"]:
            raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
        n = len(read_ndjson(out))
        ctx.violation("%s: %s" % (what, crash.get("first", crash["kind"])), {"crash": crash, "program": programs[n] if n < len(programs) else None})
        return []
    recs = read_ndjson(out)
    if len(recs) != len(programs):
        raise CheckError("driver recorded %d of %d programs" % (len(recs), len(programs)))
    traces = []
    for ops, gots in zip(programs, recs):
        tr = [{"e": "init"}]
        by = {g["i"]: g["got"] for g in gots}
        for i, o in enumerate(ops):
            o = dict(o)
            if i in by:
                o["got"] = by[i]
            tr.append({"e": "call", "t": 1, "op": o})
            tr.append({"e": "ret", "t": 1, "res": {"ok": True}})
        traces.append(tr)
    builds = [g["got"] for gs in recs for g in gs if "nodes" in g["got"]]
    log("%d builds, %d of them successful, %d nodes" % (len(builds), sum(b["ok"] for b in builds), sum(len(b["nodes"]) for b in builds)))
    ctx.sample({"program": [[o["op"], o["name"]] for o in programs[0]], "got": recs[0][-1]})
    for i, reached in ctx.validate("WireTrace", traces, chunk=chunk)[:5]:
        t = traces[i]
        e = t[reached] if reached < len(t) else None
        at = (reached - 1) // 2
        ctx.violation("%s: %s %s" % (what, programs[i][at]["op"] if at < len(programs[i]) else "", json.dumps(e)[:200]),
                      {"explained_prefix": reached, "program": programs[i], "got": recs[i], "failed_operation": at})
    return recs
