from common import *


def case(rng):
    n = 0
    ops, obedient, slots, parent = [], {}, [], {}
    cancelled, done, where, later = set(), set(), {}, []

    def runs(k):
        out = []
        for _ in range(k):
            r = "r%d" % len(obedient)
            obedient[r] = rng.random() < .5
            out.append(r)
        return out

    def op(o, **kw):
        d = {"op": o, "parent": "", "slot": "", "runs": [], "defs": [], "fails": False, "run": "", "home": "", "err": False, "await": False, "thread": 0}
        d.update(kw)
        ops.append(d)

    def below(s):
        """The slots at or under s (only to place operations sensibly; not an oracle)."""
        return [x for x in slots if x == s or (parent[x] and x in down(s))]

    def down(s):
        out = {s}
        for x in slots:
            if parent[x] in out:
                out.add(x)
        return out

    def build(par):
        s = "s%d" % len(parent)
        rs = runs(rng.choice([0, 1, 1, 2]))
        ds = runs(rng.choice([0, 1, 2]))
        fails = par != "" and rng.random() < .12
        op("build", parent=par, slot=s, runs=rs, defs=ds, fails=fails)
        parent[s] = par
        if not fails:
            slots.append(s)
            later.extend((s, d) for d in ds)
        for r in rs:
            where[r] = s

    build("")
    threads, waiting = 0, []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        if r < .22 and len(parent) < 6:
            build(rng.choice(slots))
        elif r < .42 and later:
            s, d = rng.choice(later)
            at = s
            if rng.random() < .3:
                at = rng.choice([x for x in slots if x in down(s)])
            op("get", slot=at, home=s, run=d)
            where.setdefault(d, s)
        elif r < .47:
            op("get", slot=rng.choice(slots))
        elif r < .65 and [x for x in where if x not in done]:
            x = rng.choice([x for x in where if x not in done])
            done.add(x)
            # an obedient runnable that was cancelled is gone already: no error from it then
            op("finish", run=x, err=(not obedient[x]) and rng.random() < .4)
        elif r < .78:
            threads += 1
            s = rng.choice(slots)
            if rng.random() < .5:
                op("await", slot=s, thread=threads)
            else:
                op("shutdown", slot=s, thread=threads, **{"await": True})
            waiting.append((threads, s))
        elif r < .86:
            op("shutdown", slot=rng.choice(slots))
        elif r < .88:
            op("ctx")
        elif r < .9:
            op("interrupt")
        op("snap")
    op("starts")
    # the end: one waiting call after the other must come back as soon as what it waits for is over,
    # whatever else is still running
    waiting.sort(key=lambda w: len(down(w[1])))
    for t, s in waiting:
        scope = down(s)
        for x in list(where):
            if where[x] in scope or (parent.get(where[x]) in scope):
                if x not in done:
                    done.add(x)
                    op("finish", run=x)
        # namespaces that could not be completed below s
        op("join", thread=t)
    op("snap")
    op("starts")
    return {"obedient": obedient, "ops": ops}


def explain(ctx, cases, race=False, validate=True):
    binary = ctx.build("./cmd/drv_nslife", race=race)
    ctx._n += 1
    inp, out = ctx.path("nl%d.json" % ctx._n), ctx.path("nl%d.ndjson" % ctx._n)
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    r, crash = run_driver(ctx, binary, [out, inp], timeout=300)
    if crash:
        if REPO + "/" not in crash["text"]:
            raise CheckError("driver crashed outside the code under test:\n" + crash["text"])
        ctx.violation("lifecycle: %s" % crash.get("first", crash["kind"]), crash)
        return
    if not validate:
        return
    recs = read_ndjson(out)
    if len(recs) != len(cases) and "GAVE-UP" not in r.stdout:
        raise CheckError("driver recorded %d of %d cases" % (len(recs), len(cases)))
    traces = []
    for c, evs in zip(cases, recs):
        tr = [{"e": "init"}]
        for e in evs:
            if e["e"] == "call":
                o = dict(c["ops"][e["i"]])
                for k in ("runs", "ns", "n"):
                    if k in e:
                        o[k] = e[k]
                tr.append({"e": "call", "t": e["t"] + 1, "op": o})
            elif e["e"] == "ret":
                tr.append({"e": "ret", "t": e["t"] + 1, "res": {"ok": e["ok"]}})
            else:
                tr.append(e)
        traces.append(tr)
    ctx.sample({"ops": [o["op"] for o in cases[0]["ops"]]})
    for i, reached in ctx.validate("NsLifeTrace", traces)[:5]:
        t = traces[i]
        ctx.violation("lifecycle: event %d %s" % (reached, json.dumps(t[reached] if reached < len(t) else None)[:200]),
                      {"explained_prefix": reached, "case": cases[i], "trace": t})


def check(ctx):
    ctx.model_check("NsLife", """SPECIFICATION Spec
CONSTANTS MaxNs = 3
 Runnables = {r1, r2%s}
INVARIANTS Downwards Covers
PROPERTIES CancelStays ComesBack
CHECK_DEADLOCK FALSE
""" % ctx.pick("", ", r3"))
    ctx.instrument(["runtime/plugins/golang"])
    explain(ctx, [case(ctx.rng) for _ in range(ctx.pick(1500, 12000))])
    explain(ctx, [case(ctx.rng) for _ in range(ctx.pick(100, 500))], race=True, validate=False)
