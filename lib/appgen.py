"""Generated applications: wiring programs compiled with the real plugins, built, run through scenarios,
and their histories validated against AppTrace."""
from concurrent.futures import ThreadPoolExecutor

from common import *

CLIENT = ["retry", "retryfd", "retryeb", "retryrl", "retrytb", "timeout", "pool", "cb"]
SERVER = ["latency", "fault", "delay", "health"]


def node_type(iface, deps):
    return "N%s" % "_".join(["x" if i is None else str(i) for i in [iface] + list(deps)])


class App:
    """Services s, in which process each lives, what it depends on and how it is modified."""

    def __init__(self, name):
        self.name = name
        self.svcs = {}   # in order of definition
        self.procs = {}
        self.ctrs = {}
        self.cyclic = False
        self.types = set()
        self.collector = ""
        self.ops = []    # modifiers in order of application
        self.extra = []  # operations after everything is defined
        self.after = []  # operations after the processes are

    def svc(self, s, proc, deps=(), iface=None):
        """iface: number of an interface of its own (see typedgen.write_ifaces); that of all others by default."""
        self.svcs[s] = {"kind": "svc", "proc": proc, "deps": list(deps), "mods": [], "n": iface,
                        "iface": "svc" if iface is None else "if%d" % iface, "meth": "call" if iface is None else "run%d" % iface}
        self.procs.setdefault(proc, []).append(s)
        ns = [self.svcs[x]["n"] for x in deps]
        if iface is None and all(x is None for x in ns):
            self.ops.append({"op": "svc", "name": s, "s": "id." + s, "deps": list(deps)})
        else:
            t = node_type(iface, ns)
            self.types.add((t, iface, tuple(ns)))
            self.ops.append({"op": "typed", "name": s, "to": t, "s": "id." + s, "deps": list(deps)})
        return s

    def lb(self, group, proc, deps):
        s = group + "_lb"
        i = self.svcs[deps[0]]["n"]
        self.svcs[s] = dict(self.svcs[deps[0]], kind="lb", proc=proc, deps=list(deps), mods=[])
        self.procs.setdefault(proc, []).append(s)
        if i is None:
            self.ops.append({"op": "lb", "name": group, "deps": list(deps)})
        else:
            self.types.add((node_type(i, []), i, ()))
            self.ops.append({"op": "typedlb", "name": group, "to": node_type(i, []), "deps": list(deps)})
        return s

    def mod(self, s, k, **kw):
        """kw: what the specification knows about the modifier; the operation is derived from it."""
        us = lambda x: "%dus" % x
        if k == "retryto":   # retries, and a timeout for every attempt
            self.svcs[s]["mods"] += [dict(k="retry", n=kw["n"]), dict(k="timeout", us=kw["us"])]
            self.ops.append({"op": "retryto", "name": s, "n": kw["n"], "s": us(kw["us"])})
            return
        self.svcs[s]["mods"].append(dict(k=k, **kw))
        op = {"op": k, "name": s}
        if k == "retry":
            op.update(n=kw["n"])
        elif k == "retryfd":
            op.update(n=kw["n"], s=us(kw["us"]))
        elif k == "retryeb":
            op.update(s=us(kw["us"]), s2=us(kw["limit"]), b=kw["b"])
        elif k == "retryrl":
            op.update(n=kw["n"], m=kw["m"])
        elif k == "retrytb":
            op.update(f=kw["cap"], g=kw["cost"], h=kw["repl"])
        elif k == "timeout":
            op.update(s=us(kw["us"]))
        elif k in ("pool", "fault", "delay"):
            op.update(n=kw["n"])
        elif k == "latency":
            op.update(s=us(kw["us"]))
        elif k == "cb":
            op.update(n=kw["n"], f=kw["m"] / 100, s="1h")
        elif k == "otel":
            op["op"] = "otel" if kw["own"] else "otelserver"
            op["to"] = self.collector
        elif k == "grpc":
            self.svcs[s]["mods"][-1]["us"] = 1000000
        self.ops.append(op)

    def program(self, d):
        ops = self.ops + self.extra + [{"op": "proc", "name": self.name + "_" + p, "deps": ss} for p, ss in self.procs.items()] + self.after
        # containers have their processes
        ops += [{"op": "ctr", "name": self.name + "_" + c, "deps": [self.name + "_" + p for p in ps]} for c, ps in self.ctrs.items()]
        top = list(self.ctrs) + [p for p in self.procs if not any(p in ps for ps in self.ctrs.values())]
        return {"name": self.name, "dir": d, "generate": True, "ops": ops, "build": [self.name + "_" + p for p in top]}

    def order(self):
        """Processes, those that others depend on first."""
        deps = {p: set() for p in self.procs}
        for s, d in self.svcs.items():
            for x in d["deps"]:
                if self.svcs[x]["proc"] != d["proc"]:
                    deps[d["proc"]].add(self.svcs[x]["proc"])
        out = []
        while len(out) < len(deps):
            ready = [p for p in deps if p not in out and deps[p] <= set(out)]
            if not ready:
                self.cyclic = True
                return list(deps)
            out += ready
        return out

    def cfg(self):
        return {"svc": {s: {k: v for k, v in d.items() if k != "n"} for s, d in self.svcs.items()}}

    def callers(self):
        """(instance, index of the dependency, service)"""
        return [(s, i, x) for s, d in self.svcs.items() if d["kind"] == "svc" for i, x in enumerate(d["deps"])]


def call(app, frm, dep, plan, **kw):
    return dict({"from": "id." + frm, "dep": dep, "plan": plan}, **kw)


def scenario(app, phases):
    order = [app.name + "_" + p for p in app.order()]
    # a gRPC client that was there before its server tries again after a second
    rpc = {s for s, d in app.svcs.items() if any(m["k"] == "grpc" for m in d["mods"])}
    settle = rpc and (app.cyclic or any(x in rpc and app.svcs[x]["proc"] == d["proc"] for d in app.svcs.values() for x in d["deps"]))
    return {"app": app.name, "order": order, "settle_us": 2500000 if settle else 0, "collector": app.collector,
            "ids": {"id." + s: s for s in app.svcs}, "phases": phases}


def use_wf(ctx):
    shutil.copytree(os.path.join(VERIF, "wf"), ctx.path("wf"), dirs_exist_ok=True)
    ctx.extra_uses.append(ctx.path("wf"))
    for d in ("mux", "circuitbreaker"):
        shutil.copytree(os.path.join(VERIF, "stubs", d), ctx.path("stubs", d), dirs_exist_ok=True)
        ctx.extra_uses.append(ctx.path("stubs", d))


MINIMAL = {
    "golang.org/x/net": ("golang.org/x/net@v0.61.0", "", ""),
    "google.golang.org/genproto": ("google.golang.org/genproto@v0.0.0-20210602131652-f16073e35f0c", "googleapis/rpc", ""),
    "google.golang.org/grpc": ("google.golang.org/grpc@v1.38.0", "", ""),
    "github.com/golang/protobuf": ("github.com/golang/protobuf@v1.5.4", "", ""),
    "google.golang.org/protobuf": ("google.golang.org/protobuf@v1.34.0", "", ""),
}


def use_grpc(ctx):
    """gRPC as far as the module cache has it, as modules of the workspace, and the plugins of protoc."""
    cache = os.environ.get("GOMODCACHE", os.path.expanduser("~/go/pkg/mod"))
    for m, (src, only, _) in MINIMAL.items():
        d = ctx.path("vendored", m)
        shutil.copytree(os.path.join(cache, src, only), os.path.join(d, only),
                        ignore=lambda p, fs: [f for f in fs if f in ("testdata", "test", "interop", "xds", "examples", "benchmark", "go.mod", "go.sum")
                                              or f.endswith("_test.go")])
        for p, ds, fs in os.walk(d):
            os.chmod(p, 0o755)
        with open(os.path.join(d, "go.mod"), "w") as f:
            f.write("module %s\n\ngo 1.22.0\n" % m)
        ctx.extra_uses.append(d)
    shutil.copytree(os.path.join(VERIF, "stubs", "grpctool"), ctx.path("grpctool"), dirs_exist_ok=True)
    ctx.extra_uses.append(ctx.path("grpctool"))
    ctx.workspace()
    tools = ctx.path("tools")
    os.makedirs(tools, exist_ok=True)
    e = ctx.goenv()
    for name, pkg in (("protoc-gen-go-grpc", "verif.example/grpctool/protoc-gen-go-grpc"), ("protoc-gen-go", "google.golang.org/protobuf/cmd/protoc-gen-go")):
        r = run(["go", "build", "-o", os.path.join(tools, name), pkg], env=e, cwd=ctx.path("harness"), timeout=600)
        if r.returncode != 0:
            raise CheckError("cannot build %s: %s" % (name, tail(r.stderr)))
    ctx.tools = tools


def compile_programs(ctx, programs, timeout=600):
    """Runs the real compiler on the programs; returns one record each."""
    b = ctx.build("./cmd/drv_compile")
    out = ctx.path("compiled%d.ndjson" % ctx._n)
    ctx._n += 1
    e = ctx.goenv()
    if getattr(ctx, "tools", None):
        e["PATH"] = ctx.tools + ":" + e["PATH"]
    r = run([b, out], input="\n".join(json.dumps(p) for p in programs) + "\n", env=e, cwd=ctx.path("harness"), timeout=timeout)
    if r.returncode != 0:
        raise CheckError("drv_compile failed: " + tail(r.stderr))
    return read_ndjson(out)


def build_apps(ctx, apps, race=False):
    """Compiles the applications and links all of their processes into one driver. Returns the driver,
    or None after reporting what does not compile."""
    recs = compile_programs(ctx, [a.program(ctx.path("gen", a.name)) for a in apps])
    bad = False
    for a, r in zip(apps, recs):
        err = r.get("err") or r.get("generr") or r.get("panic")
        if err:
            ctx.violation("an application does not compile: " + err.split("\n")[0][:200], {"program": a.program(""), "error": err[:3000]})
            bad = True
    if bad:
        return None
    imports, table, mods = [], [], []
    for a in apps:
        rows = []
        for p in a.procs:
            pn = a.name + "_" + p
            d, mod = proc_module(ctx, a, p)
            mods.append(d)
            imports.append('\t%s "%s"\n' % (pn, mod))
            rows.append('\t\t"%s": {"%s", %s.New_%s},\n' % (pn, pn, pn, pn))
        table.append('\tApps["%s"] = map[string]Proc{\n%s\t}\n' % (a.name, "".join(rows)))
    hs = ctx.path("harness", "cmd", "drv_app")
    open(os.path.join(hs, "registry.go"), "w").write("package main\n\nimport (\n%s)\n\nfunc init() {\n%s}\n" % ("".join(imports), "".join(table)))
    use_modules(ctx, mods)
    try:
        return ctx.build("./cmd/drv_app", race=race)
    except CheckError as e:
        txt = str(e)
        if re.search(r"(gen/[a-z]+\d+/|blueprint/goproc/)", txt):
            ctx.violation("generated code does not compile: " + next((l for l in txt.split("\n") if ".go:" in l), "")[-200:],
                          {"error": txt[:4000]})
            return None
        raise


def proc_module(ctx, a, p):
    """The generated module of a process, made a package of the workspace."""
    pn = a.name + "_" + p
    ds = [d for d, _, fs in os.walk(ctx.path("gen", a.name, "out")) if os.path.basename(d) == pn and "go.mod" in fs]
    if len(ds) != 1:
        raise CheckError("no generated process %s in %s" % (pn, ctx.path("gen", a.name)))
    d = ds[0]
    for f in os.listdir(d):
        if f.endswith(".go"):
            t = open(os.path.join(d, f)).read()
            if re.search(r"^func main\(\)", t, re.M):
                os.unlink(os.path.join(d, f))
            else:
                open(os.path.join(d, f), "w").write(re.sub(r"^package main$", "package " + pn, t, flags=re.M))
    mod = re.search(r"^module (\S+)", open(os.path.join(d, "go.mod")).read(), re.M).group(1)
    open(os.path.join(d, "go.mod"), "w").write("module %s\n\ngo 1.22.0\n" % mod)
    return d, mod


def use_modules(ctx, mods):
    ws = ctx.workspace()
    t = open(ws).read()
    for m in mods:
        if "use %s\n" % m not in t:
            t += "use %s\n" % m
    open(ws, "w").write(t)


def must_build(ctx, a, case):
    """Compiles one application, and what was generated for it; nothing is run."""
    r = compile_programs(ctx, [a.program(ctx.path("gen", a.name))])[0]
    err = r.get("err") or r.get("generr") or r.get("panic")
    if not err:
        mods = [proc_module(ctx, a, p) for p in a.procs]
        old = open(ctx.workspace()).read()
        use_modules(ctx, [d for d, _ in mods])
        b = run(["go", "build"] + [m for _, m in mods], env=ctx.goenv(), cwd=ctx.path("harness"), timeout=300)
        open(ctx.workspace(), "w").write(old)
        err = b.stderr if b.returncode else ""
    if err:
        ctx.violation("%s: does not build: %s" % (case, err.strip().split("\n")[-1][:200]), {"case": case, "program": a.program(""), "error": err[:2000]})


def run_apps(ctx, apps, scenarios, what, race=False, timeout=600, chunk=40, par=5):
    """scenarios: list of (app, phases). Returns the records by index."""
    binary = build_apps(ctx, apps, race=race)
    if not binary:
        return {}
    ctx._n += 1
    par = min(par, len(scenarios))
    parts = [list(range(k, len(scenarios), par)) for k in range(par)]

    def drive(k):
        inp, out = ctx.path("scen%d.%d.ndjson" % (ctx._n, k)), ctx.path("hist%d.%d.ndjson" % (ctx._n, k))
        with open(inp, "w") as f:
            for i in parts[k]:
                f.write(json.dumps(scenario(*scenarios[i])) + "\n")
        # generated processes that would be separate are linked together
        r, crash = run_driver(ctx, binary, [out, inp], timeout=timeout, env={
            "GOLANG_PROTOBUF_REGISTRATION_CONFLICT": "ignore", "VERIF_PORTS": "%d+%d" % (10000 + k * 4400, 4400)})
        return crash, read_ndjson(out) if os.path.exists(out) else []
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(drive, range(par)))
    recs = {}
    for part, (crash, rs) in zip(parts, results):
        recs.update(zip(part, rs))
        if crash:
            k = len(rs)
            ctx.violation("%s: %s" % (what, crash.get("first", crash["kind"])),
                          {"crash": crash, "app": scenarios[part[k]][0].program("") if k < len(part) else None})
        elif len(rs) != len(part) and not (rs and rs[-1].get("stuck")):
            raise CheckError("driver recorded %d of %d scenarios" % (len(rs), len(part)))
    traces, idx = [], []
    for i in sorted(recs):
        (a, ph), rec = scenarios[i], recs[i]
        if "builderr" in rec:
            ctx.violation("%s: an application does not start: %s" % (what, rec["builderr"][:200]), {"program": a.program(""), "error": rec["builderr"]})
            continue
        traces.append([{"e": "init", "cfg": a.cfg()}] + rec["events"])
        idx.append(i)
    log("%d scenarios, %d events" % (len(traces), sum(map(len, traces))))
    for i, reached in ctx.validate("AppTrace", traces, chunk=chunk, lin=False)[:5]:
        t = traces[i]
        e = t[reached] if reached < len(t) else None
        a, ph = scenarios[idx[i]]
        ctx.violation("%s: %s" % (what, json.dumps(e)[:200]), {"explained_prefix": reached, "program": a.program(""), "events": t, "phases": ph})
    if traces:
        ctx.sample({"program": scenarios[idx[0]][0].program("")["ops"], "events": traces[0][1:12]})
    return recs
