"""Random applications and scenarios for them, one family per kind of modifier."""
from appgen import *


class Ids:
    def __init__(self, prefix):
        self.n, self.prefix = 0, prefix

    def __call__(self):
        self.n += 1
        return "%s%d" % (self.prefix, self.n)


class Errs:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return "E%d!" % self.n


def outs_fail(err, k, extra=0):
    """k failures with an error each of its own, then success."""
    return [{"err": err()} for _ in range(k)] + [{"err": ""}]


def plan_tree(rng, app, s, err, depth, p_err=0.15, par=False, ignore=0.2):
    """What service s does in one call: calls of its dependencies, and theirs."""
    d = app.svcs[s]
    if d["kind"] == "lb":
        # any of its instances may get it: they have no dependencies
        return {"outs": [{"err": err()} if rng.random() < p_err else {}]}
    o = {}
    if depth > 0 and d["deps"]:
        subs = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(d["deps"]))
            subs.append({"dep": i, "plan": plan_tree(rng, app, d["deps"][i], err, depth - 1, p_err, par, ignore), "ignore": rng.random() < ignore})
        o["subs"] = subs
        if par and rng.random() < 0.4:
            o["par"] = True
    if rng.random() < p_err:
        o["err"] = err()
    return {"outs": [o]}


def top(rng, app, c, frm, dep, plan, **kw):
    return call(app, frm, dep, dict(plan, c=c()), **kw)


def spread(rng, calls, threads):
    ts = [[] for _ in range(threads)]
    for x in calls:
        ts[rng.randrange(threads)].append(x)
    return [t for t in ts if t]


# ---------------------------------------------------------------- retries

def rand_retry(rng, app, s, kinds, fixed=None):
    k = rng.choice(kinds)
    if k == "retry":
        app.mod(s, "retry", n=rng.randint(1, 5))
    elif k == "retryfd":
        app.mod(s, "retryfd", n=rng.randint(1, 4), us=rng.choice([2000, 10000, 30000]))
    elif k in ("retryeb", "retryebj"):
        d = rng.choice([2000, 5000, 12000])
        app.mod(s, "retryeb", us=d, limit=rng.choice([d, d * 3, d * 8, d * 10]), b=k == "retryebj")
    elif k == "retryrl":
        app.mod(s, "retryrl", **(fixed or dict(n=rng.choice([2, 5, 12]), m=rng.choice([5, 10, 20]))))
    elif k == "retrytb":
        app.mod(s, "retrytb", cap=rng.choice([3, 5, 8]), cost=rng.choice([1, 2, 3]), repl=rng.choice([1, 2]))
    elif k == "retryto":
        app.mod(s, "retryto", n=rng.randint(2, 4), us=rng.choice([60000, 90000]))
    return k


RETRIES = ["retry", "retryfd", "retryeb", "retryebj", "retryrl", "retrytb", "retryto"]


def retry_app(rng, name, wide, kind):
    """Three retried services in one process; two callers share them. wide: across processes as well."""
    app, err, c = App(name), Errs(), Ids("t")
    kinds = []
    for i in range(3):
        s = "s%d" % i
        far = wide and i == 0
        app.svc(s, "p1" if far else "p0")
        kinds.append(rand_retry(rng, app, s, [kind] if i < 2 else RETRIES, dict(n=12, m=10) if i == 0 else None))
        if far:
            app.mod(s, "http")
    app.svc("r", "p0", ["s0", "s1", "s2"])
    app.svc("q", "p0", ["s0", "s1"])
    seq, conc = [], []
    for i in range(3):
        for j in range(5):
            frm = rng.choice(["r", "q"]) if i < 2 else "r"
            plan = {"outs": outs_fail(err, rng.choice([0, 1, 2, 3, 5, 7]))}
            if kinds[i] == "retryto" and rng.random() < 0.4 and not (wide and i == 0):
                plan["outs"].insert(0, {"block": True})
            seq.append(top(rng, app, c, frm, i, plan))
    rng.shuffle(seq)
    if kind == "retryrl":   # bursts, one after some time without retries
        for t in (0, 1300000):
            seq.append(top(rng, app, c, "r", 0, {"outs": outs_fail(err, 13)}, time_us=t))
    for j in range(6):
        frm = rng.choice(["r", "q"])
        i = rng.randrange(3 if frm == "r" else 2)
        kw = {}
        if kinds[i] in ("retryeb", "retryebj", "retryrl") and rng.random() < 0.3 and not (wide and i == 0):
            kw["cancel_us"] = rng.choice([3000, 20000])
        conc.append(top(rng, app, c, frm, i, {"outs": outs_fail(err, rng.choice([0, 1, 2, 4]))}, **kw))
    return app, [[seq], spread(rng, conc, 3)]


# ---------------------------------------------------------------- timeouts

SHORT, LONG = [40000, 60000, 90000], 10000000


def timeout_app(rng, name, wide):
    """Services with timeouts below other services with timeouts, called by two."""
    app, err, c = App(name), Errs(), Ids("t")
    t = {}
    for i in range(2):
        s = "s%d" % i
        far = wide and i == 0
        app.svc(s, "p1" if far else "p0")
        t[s] = rng.choice(SHORT + [LONG, LONG])
        app.mod(s, "timeout", us=t[s])
        if far:
            app.mod(s, "http")
    app.svc("m", "p0", ["s0", "s1"])
    t["m"] = rng.choice([30000, 70000, 120000, LONG])
    if rng.random() < 0.5:
        t["m"] = 50000
    app.mod("m", "timeout", us=t["m"])
    app.svc("r", "p0", ["s0", "m"])
    app.svc("q", "p0", ["m", "s1"])
    def blocks(s, below):
        if wide and s == "s0":
            return {}
        if t[s] < LONG:
            return rng.choice([{"block": True}, {"bctx": True}])
        return {"bctx": True} if below and rng.random() < 0.5 else {}

    def leaf(s, below=False):
        x = rng.random()
        if x < 0.35:
            return {"outs": [blocks(s, below)]}
        if x < 0.5:
            return {"outs": [{"us": rng.choice([5000, 30000, 50000, 100000]), "err": err() if rng.random() < 0.3 else ""}]}
        return {"outs": [{"err": err()} if rng.random() < 0.4 else {}]}

    def mid():
        o = {"subs": [{"dep": i, "plan": leaf("s%d" % i, t["m"] < LONG), "ignore": rng.random() < 0.5} for i in [rng.randrange(2) for _ in range(rng.randint(1, 3))]]}
        if rng.random() < 0.3:
            o["par"] = True
        if rng.random() < 0.2:
            o["err"] = err()
        return {"outs": [o]}

    def one():
        frm = rng.choice(["r", "q"])
        dep = rng.randrange(2)
        s = app.svcs[frm]["deps"][dep]
        kw = {}
        if not wide and rng.random() < 0.2:
            kw["cancel_us"] = rng.choice([2000, 10000, 30000])
        return top(rng, app, c, frm, dep, mid() if s == "m" else leaf(s), **kw)
    seq = [one() for _ in range(5)]
    for i in range(2):   # what is called in time that is limited from further up
        if t["s%d" % i] == LONG and t["m"] < LONG and not (wide and i == 0):
            seq.append(top(rng, app, c, "q", 0, {"outs": [{"subs": [{"dep": i, "plan": {"outs": [{"bctx": True}]}}]}]}))
    return app, [[seq], spread(rng, [one() for _ in range(5)], 3)]


# ---------------------------------------------------------------- load balancers

def lb_app(rng, name, wide):
    app, err, c = App(name), Errs(), Ids("t")
    groups = []
    k = 0
    for g in range(rng.randint(1, 2)):
        deps = []
        for i in range(rng.randint(1, 4)):
            s = "s%d" % k
            k += 1
            far = wide and rng.random() < 0.6
            app.svc(s, "p1" if far else "p0")
            if rng.random() < 0.3:
                app.mod(s, "retry", n=rng.randint(1, 3))
            if far:
                app.mod(s, "http")
            deps.append(s)
        groups.append(app.lb("g%d" % g, "p0", deps))
    app.svc("r", "p0", [rng.choice(groups), groups[0]])
    app.svc("q", "p0", [groups[-1], rng.choice(groups)])
    app.svc("z", "p0", ["r", "q"])

    def leaf(s):
        return {"outs": [{"err": err()} if rng.random() < 0.25 else {} for _ in range(rng.randint(1, 3))]}

    def one():
        frm = rng.choice(["r", "q", "z"])
        dep = rng.randrange(2)
        s = app.svcs[frm]["deps"][dep]
        if frm != "z":
            return top(rng, app, c, frm, dep, leaf(s))
        subs = [{"dep": rng.randrange(2), "plan": leaf(None), "ignore": rng.random() < 0.5} for _ in range(rng.randint(1, 3))]
        return top(rng, app, c, frm, dep, {"outs": [{"subs": subs}]})
    return app, [[[one() for _ in range(8)]], spread(rng, [one() for _ in range(6)], 3)]


# ---------------------------------------------------------------- client pools

def pool_app(rng, name, wide):
    app, err, c, b = App(name), Errs(), Ids("t"), Ids("b")
    n = {}
    sizes = [rng.randint(1, 4) for _ in range(3)]
    for i in range(3):
        s = "s%d" % i
        app.svc(s, "p2" if wide and i == 1 else "p1")   # clients are pooled, services are not
        if rng.random() < 0.3:
            app.mod(s, "retry", n=2)
        app.mod(s, "pool", n=sizes[i])
        n[s] = sizes[i]
        app.mod(s, "http")
    app.svc("r", "p0", ["s0", "s1", "s2"])
    app.svc("q", "p0", ["s2", "s1"])
    phases = []
    for s in rng.sample(list(n), 3):
        frms = [(f, app.svcs[f]["deps"].index(s)) for f in ("r", "q") if s in app.svcs[f]["deps"]]
        # as many as there are clients get through at once, the others wait for them
        w = rng.randint(1, 3)
        name_b = b()
        calls = [dict(top(rng, app, c, *rng.choice(frms), {"outs": [{"bar": name_b, "barn": n[s]}]})) for _ in range(n[s])]
        more = []
        for _ in range(w):
            kw = {}
            more.append(top(rng, app, c, *rng.choice(frms), {"outs": [{"us": 1000, "err": err() if rng.random() < 0.4 else ""}]}, time_us=rng.choice([0, 0, 500]), **kw))
        phases.append([[x] for x in calls])
        many = []
        for _ in range(n[s] + w):
            many.append([top(rng, app, c, *rng.choice(frms), {"outs": [{"us": rng.choice([500, 2000, 10000]), "err": err() if rng.random() < 0.3 else ""}]})])
        phases.append(many[:5] + [[x] for x in more[:2]])
    return app, phases


# ---------------------------------------------------------------- server-side modifiers

def server_app(rng, name, wide):
    """All services of an interface are checked for health, or none; what is below the health check in one is so in all."""
    app, err, c = App(name), Errs(), Ids("t")
    order = rng.sample(["latency", "fault", "delay", "health"], 4)
    health = rng.random() < 0.5
    for i in range(3):
        s = "s%d" % i
        far = wide and i != 1
        app.svc(s, "p1" if far else "p0")
        for k in order:
            if k == "health":
                if health:
                    app.mod(s, k)
            elif rng.random() < 0.3:
                continue
            elif k == "latency":
                app.mod(s, k, us=rng.choice([3000, 10000, 25000]))
            elif k == "fault":
                app.mod(s, k, n=rng.choice([0, 100, 50]))
            elif k == "delay":
                app.mod(s, k, n=rng.choice([1, 5, 20]))
        if rng.random() < 0.4:
            app.mod(s, "retry", n=rng.randint(2, 3))
        if far:
            app.mod(s, "http")
    app.svc("r", "p0", ["s0", "s1", "s2"])
    app.svc("q", "p0", ["s2", "s0"])

    def one():
        frm = rng.choice(["r", "q"])
        dep = rng.randrange(len(app.svcs[frm]["deps"]))
        return top(rng, app, c, frm, dep, {"outs": [{"err": err()} if rng.random() < 0.3 else {} for _ in range(rng.randint(1, 2))]})
    return app, [[[one() for _ in range(8)]], spread(rng, [one() for _ in range(5)], 3)]


# ---------------------------------------------------------------- circuit breakers

def cb_app(rng, name, wide):
    app, err, c = App(name), Errs(), Ids("t")
    for i in range(3):
        s = "s%d" % i
        far = wide and i == 2
        app.svc(s, "p1" if far else "p0")
        if rng.random() < 0.3:
            app.mod(s, "retry", n=rng.randint(2, 3))
        app.mod(s, "cb", n=rng.choice([1, 2, 3, 5]), m=rng.choice([20, 50, 75, 100]))
        if far:
            app.mod(s, "http")
    app.svc("r", "p0", ["s0", "s1", "s2"])
    app.svc("q", "p0", ["s2", "s0"])
    p = rng.choice([0.1, 0.3, 0.6])

    def one():
        frm = rng.choice(["r", "q"])
        dep = rng.randrange(len(app.svcs[frm]["deps"]))
        return top(rng, app, c, frm, dep, {"outs": [{"err": err()} if rng.random() < p else {} for _ in range(rng.randint(1, 2))]})
    return app, [[[one() for _ in range(14)]], spread(rng, [one() for _ in range(6)], 3)]


# ---------------------------------------------------------------- wiring

def graph_app(rng, name, rpc):
    """Any graph of services over processes, which may be grouped into containers."""
    app, err, c = App(name), Errs(), Ids("t")
    nproc = rng.randint(1, 4)
    n = rng.randint(3, 9)
    groups = 0
    where = {}
    for i in range(n):
        s = "s%d" % i
        before = list(app.svcs)
        k = rng.choice([0, 1, 2, 2, 3]) if before else 0
        deps = []
        proc = "p%d" % rng.randrange(nproc)
        ok = [x for x in before if app.svcs[x]["proc"] == proc or where.get(x)]
        for _ in range(k):
            if ok:
                deps.append(rng.choice(ok))
        app.svc(s, proc, deps)
        for m in rng.sample(["retry", "timeout", "latency"], rng.choice([0, 0, 1, 2])):
            app.mod(s, m, **{"retry": dict(n=2), "timeout": dict(us=30000000), "latency": dict(us=300)}[m])
        if rng.random() < .7:
            app.mod(s, rng.choice(rpc))
            where[s] = True
        leaves = [x for x in app.svcs if not app.svcs[x]["deps"] and (app.svcs[x]["proc"] == proc or where.get(x)) and app.svcs[x]["kind"] == "svc"]
        if rng.random() < .2 and leaves:
            app.lb("g%d" % groups, proc, [rng.choice(leaves) for _ in range(1)] if len(leaves) == 1 else rng.sample(leaves, rng.randint(1, len(leaves))))
            groups += 1
    procs = list(app.procs)
    rng.shuffle(procs)
    if rng.random() < .4:
        k = rng.randint(1, len(procs))
        app.ctrs["c0"] = procs[:k]
        if k < len(procs) and rng.random() < .5:
            app.ctrs["c1"] = procs[k:]
    callers = app.callers()
    if not callers:
        return graph_app(rng, name, rpc)

    def one():
        frm, dep, s = rng.choice(callers)
        return top(rng, app, c, frm, dep, plan_tree(rng, app, s, err, 2, 0.1, True, 0.5))
    # every reference at least once
    seq = [top(rng, app, c, frm, dep, {"outs": [{}]}) for frm, dep, s in callers]
    return app, [[seq], [[one() for _ in range(8)]], spread(rng, [one() for _ in range(8)], 3)]


# ---------------------------------------------------------------- tracing

def trace_app(rng, name, rpc):
    """Traced and untraced services. Tracing and health checks change an interface: what all services of it have
    is decided once for every interface."""
    app, err, c = App(name), Errs(), Ids("t")
    app.collector = "zip"
    app.ops.append({"op": "zipkin", "name": "zip"})
    nif = rng.randint(1, 3)
    kinds = []
    first = rng.sample(["otel", "health"], 2)   # in the same order everywhere
    for i in range(nif):
        ms = rng.sample(["retry", "cb", "timeout", "latency", "fault", "health", "delay"], rng.choice([0, 1, 1, 2, 3]))
        if rng.random() < .85 or i == 0:
            ms.insert(rng.randint(0, len(ms)), "otel")
        if "otel" in ms and "health" in ms:
            i1, i2 = sorted([ms.index("otel"), ms.index("health")])
            ms[i1], ms[i2] = first
        kinds.append((None if i == 2 else i, ms, rng.random() < .75))
    nproc = rng.randint(1, 4)
    where = {}
    for i in range(rng.randint(3, 8)):
        s, proc = "s%d" % i, "p%d" % rng.randrange(nproc)
        ok = [x for x in app.svcs if app.svcs[x]["proc"] == proc or where.get(x)]
        iface, ms, own = rng.choice(kinds)
        app.svc(s, proc, [rng.choice(ok) for _ in range(rng.choice([0, 1, 2, 2, 3])) if ok], iface)
        for m in ms:
            app.mod(s, m, **{"retry": dict(n=rng.randint(2, 3)), "timeout": dict(us=30000000), "cb": dict(n=1000, m=100), "latency": dict(us=300),
                             "fault": dict(n=rng.choice([0, 0, 100])), "delay": dict(n=2), "health": {}, "otel": dict(own=own if rng.random() < .8 else not own)}[m])
        if rng.random() < .75:
            app.mod(s, rng.choice(rpc))
            where[s] = True
        leaves = [x for x in app.svcs if not app.svcs[x]["deps"] and (app.svcs[x]["proc"] == proc or where.get(x)) and app.svcs[x]["kind"] == "svc"
                  and app.svcs[x]["n"] == iface]
        if rng.random() < .25 and leaves:
            app.lb("g%d" % i, proc, rng.sample(leaves, rng.randint(1, len(leaves))))
    callers = app.callers()
    if not callers:
        return trace_app(rng, name, rpc)

    def one():
        frm, dep, s = rng.choice(callers)
        return top(rng, app, c, frm, dep, plan_tree(rng, app, s, err, 3, 0.2, True, 0.6))
    return app, [[[one() for _ in range(6)]], spread(rng, [one() for _ in range(6)], 3)]
