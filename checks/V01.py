"""Vector clocks: generated processes run as processes of their own, and their logs are compared."""
import socket
import subprocess
import threading
import time
from appscen import *


def govec_app(rng, name, rpc):
    app, c = App(name), Ids("t")
    nproc = rng.randint(2, 4)
    where = {}
    for i in range(rng.randint(3, 8)):
        s = "s%d" % i
        proc = "p%d" % (i if i < nproc else rng.randrange(nproc))
        ok = [x for x in app.svcs if app.svcs[x]["proc"] == proc or where.get(x)]
        deps = [rng.choice(ok) for _ in range(rng.choice([1, 2, 2, 3] if i >= 2 else [0, 1]))] if ok else []
        app.svc(s, proc, deps)
        for m in rng.sample(["retry", "latency"], rng.choice([0, 0, 1])):
            app.mod(s, m, **{"retry": dict(n=2), "latency": dict(us=300)}[m])
        app.mod(s, "govec")
        if rng.random() < .75:
            app.mod(s, rng.choice(rpc))
            where[s] = True
    callers = app.callers()
    if len(app.procs) < 2 or not any(app.svcs[x]["proc"] != app.svcs[f]["proc"] for f, _, x in callers):
        return govec_app(rng, name, rpc)

    def plan(s, depth):
        d = app.svcs[s]
        o, subs = {}, []
        if depth and d["deps"]:
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(len(d["deps"]))
                subs.append({"dep": i, "plan": plan(d["deps"][i], depth - 1), "ignore": True})
            o["subs"] = subs
            o["par"] = rng.random() < .4
        outs = [o]
        if not where.get(s) and rng.random() < .2:   # errors do not take a clock through RPC
            outs = [dict(o, err="E%d!" % rng.randrange(1000))] + ([{}] if rng.random() < .5 else [])
        return {"outs": outs}

    def one():
        frm, dep, s = rng.choice(callers)
        return top(rng, app, c, frm, dep, plan(s, 3))
    return app, [[[top(rng, app, c, f, d, {"outs": [{}]}) for f, d, s in callers]], spread(rng, [one() for _ in range(6)], 3)]


class Ports:
    def __init__(self, first, n):
        self.first, self.n, self.next, self.mu = first, n, os.getpid() % n, threading.Lock()

    def free(self):
        with self.mu:
            for _ in range(self.n):
                p = self.first + self.next
                self.next = (self.next + 1) % self.n
                with socket.socket() as s:
                    try:
                        s.bind(("127.0.0.1", p))
                        return "127.0.0.1:%d" % p
                    except OSError:
                        pass
        raise CheckError("no free port")


class Role:
    """One generated process."""

    def __init__(self, binary, d, spec):
        self.d, self.name = d, spec["proc"]
        os.makedirs(d)
        env = dict(os.environ, VERIF_ROLE=json.dumps(spec), GOLANG_PROTOBUF_REGISTRATION_CONFLICT="ignore")
        self.err = open(os.path.join(d, "stderr"), "w+")
        self.p = subprocess.Popen([binary, "/dev/null"], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env)
        self.mu, self.waits, self.n = threading.Lock(), {}, 0
        self.dog = threading.Timer(120, self.p.kill)
        self.dog.daemon = True
        self.dog.start()

    def tell(self, m):
        with self.mu:
            try:
                self.p.stdin.write(json.dumps(m) + "\n")
                self.p.stdin.flush()
            except OSError:
                pass

    def hear(self):
        l = self.p.stdout.readline()
        return json.loads(l) if l else None

    def listen(self):
        """From now on what is said is an answer to a call, or the end."""
        self.events = None

        def run():
            while True:
                m = self.hear()
                if m is None:
                    break
                if "done" in m:
                    self.waits.pop(m["done"]).set()
                else:
                    self.events = m["events"] or []
            for e in list(self.waits.values()):
                e.set()
        self.reader = threading.Thread(target=run, daemon=True)
        self.reader.start()

    def call(self, c):
        with self.mu:
            self.n += 1
            k, e = self.n, threading.Event()
            self.waits[k] = e
        self.tell({"id": k, "call": c})
        e.wait(60)

    def end(self):
        self.dog.cancel()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.err.seek(0)
        t = self.err.read()
        self.err.close()
        return t


def run_roles(ctx, binary, a, phases, ports):
    """Returns (events, logs), or (what went wrong, None)."""
    sc = scenario(a, phases)
    d = ctx.fresh("roles")
    base, procs, addrs, built = time.time_ns(), {}, {}, {}
    wrong = None
    try:
        for p in sc["order"]:
            r = procs[p] = Role(binary, os.path.join(d, p), {"app": a.name, "proc": p, "ids": sc["ids"], "base": base})
            m = r.hear()
            if m is not None:
                mine = {}
                for x in m["need"]:
                    k = re.sub(r"(bind|dial)_addr$", "", x)
                    mine[x] = addrs.setdefault(k, None) or addrs.__setitem__(k, ports.free()) or addrs[k]
                r.tell({"addrs": mine})
                m = r.hear()
            if m is None or "builderr" in m:
                wrong = "process %s does not start: %s" % (p, m and m["builderr"])
                break
            for s, n in m["built"].items():
                built[s] = built.get(s, 0) + n
            r.listen()
        if not wrong:
            time.sleep(sc["settle_us"] / 1e6)
            proc = {"id." + s: a.name + "_" + x["proc"] for s, x in a.svcs.items()}
            for phase in phases:
                ts = [threading.Thread(target=lambda t=t: [procs[proc[c["from"]]].call(c) for c in t]) for t in phase]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            time.sleep(.02)
            for r in procs.values():
                r.tell({"quit": True})
            for r in procs.values():
                r.reader.join(20)
    finally:
        errs = {p: r.end() for p, r in procs.items()}
    for p, t in errs.items():
        if "HARNESS" in t:
            raise CheckError("driver: " + t[:2000])
        m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE.*)$", t, re.M)
        if m:
            return "%s: %s\n%s" % (p, m.group(1), t[:3000]), None
    if wrong:
        return wrong + "\n" + "\n".join(errs.values())[:2000], None
    if any(r.events is None for r in procs.values()):
        return "a call of process %s does not come back\n" % [p for p, r in procs.items() if r.events is None] + "\n".join(errs.values())[:3000], None
    evs = [{"e": "built", "n": built, "ts": 0, "ns": 0}]
    evs += sorted((e for r in procs.values() for e in r.events), key=lambda e: e["ns"])
    for e in evs:
        e.pop("ns")
    evs.append({"e": "end", "ts": evs[-1]["ts"]})
    logs = []
    for p, r in procs.items():
        fs = [f for f in os.listdir(r.d) if f.endswith("-Log.txt")]
        if len(fs) != 1 or fs[0] != p + ".goveclogger-Log.txt":
            return "process %s writes the logs %s" % (p, fs), None
        logs.append(open(os.path.join(r.d, fs[0])).read())
    shutil.rmtree(d, ignore_errors=True)
    return evs, logs


KINDS = [("Preparing to make request for function", "call"), ("Unpacking go vec context from client request", "serve"),
         ("Sending response to the client", "reply"), ("Unpacking response from server", "back")]


def clock_trace(logs, phases):
    """The logs merged in an order in which sums of clocks rise, which is one in which clocks do."""
    par = {}

    def walk(c, p):
        for n, o in enumerate(p["outs"], 1):
            for i, s in enumerate(o.get("subs", [])):
                k = "%s.%d.%d" % (c, n, i)
                par[k] = o.get("par", False)
                walk(k, s["plan"])
    for ph in phases:
        for th in ph:
            for x in th:
                par[x["plan"]["c"]] = True
                walk(x["plan"]["c"], x["plan"])
    out = []
    for log in logs:
        lines = log.rstrip("\n").split("\n")
        if len(lines) % 2:
            return None, "a log has a line without a clock"
        for k in range(0, len(lines), 2):
            m = re.match(r"(\S+) (\{.*\})$", lines[k])
            if not m:
                return None, "not a clock: " + lines[k]
            e = {"e": "env", "proc": m.group(1), "clock": json.loads(m.group(2)), "pos": k}
            text = lines[k + 1]
            n = re.search(r"NOTE (.) (\S+) (\d+)", text)
            if n:
                c = n.group(2)
                q = c.split(".")
                e.update(kind="note", what=n.group(1), c=c, n=int(n.group(3)), par=par.get(c, True),
                         parent=".".join(q[:-2]) if len(q) > 2 else "", pn=int(q[-2]) if len(q) > 2 else 0, i=int(q[-1]) if len(q) > 2 else 0)
            else:
                e["kind"] = next((k2 for t, k2 in KINDS if t in text), "local")
            out.append(e)
    out.sort(key=lambda e: (sum(e["clock"].values()), e["proc"], e["pos"]))
    n = {k: sum(e["kind"] == k or e.get("what") == k for e in out) for k in ("call", "serve", "reply", "back", "e")}
    return [{"e": "init"}, {"e": "env", "kind": "total", "n": n}] + out + [{"e": "env", "kind": "end"}], None


def explain(ctx, made, race, fails):
    made = made + fails
    for a, _ in made:
        a.after = [{"op": "goveclog", "name": a.name + "_" + p} for p in a.procs]
    binary = build_apps(ctx, [a for a, _ in made], race=race)
    if not binary:
        return
    ports = Ports(10000, 22000)
    with ThreadPoolExecutor(5) as ex:
        recs = list(ex.map(lambda m: run_roles(ctx, binary, m[0], m[1], ports), made))
    traces, apps, idx = [], [], []
    for (a, ph), (evs, logs) in zip(made, recs):
        if logs is None:
            ctx.violation("vector clocks: " + evs.split("\n")[0][:200], {"program": a.program(""), "text": evs})
            continue
        tr, err = clock_trace(logs, ph)
        if err:
            ctx.violation("vector clocks: " + err[:200], {"program": a.program(""), "logs": logs})
            continue
        traces.append(tr)
        apps.append([{"e": "init", "cfg": a.cfg()}] + evs)
        idx.append((a, ph, logs))
    log("%d scenarios, %d log entries" % (len(traces), sum(map(len, traces))))
    for what, module, ts, lin in (("vector clocks", "VectorClockTrace", traces, True), ("calls with vector clocks", "AppTrace", apps, False)):
        for i, reached in ctx.validate(module, ts, chunk=8, lin=lin)[:7]:
            t = ts[i]
            a, ph, logs = idx[i]
            if (a, ph) in fails and lin and t[reached].get("kind") == "back":
                ctx.violation("vector clocks: the response of a failed call carries no clock (%s)" % a.name,
                              {"case": "a remote call that fails", "program": a.program(""), "trace": t, "logs": logs})
                continue
            ctx.violation("%s: %s" % (what, json.dumps(t[reached] if reached < len(t) else None)[:200]),
                          {"explained_prefix": reached, "program": a.program(""), "trace": t, "logs": logs, "phases": ph})
    if traces:
        ctx.sample({"program": idx[0][0].program("")["ops"], "log": traces[0][1:8]})


def failing(ctx, rpc):
    """A remote call that fails, and nothing else."""
    app = App("fail" + rpc)
    app.svc("s0", "p0")
    app.mod("s0", "govec")
    app.mod("s0", rpc)
    app.svc("s1", "p1", ["s0"])
    return app, [[[call(app, "s1", 0, {"c": "t1", "outs": [{"err": "E1!"}]})]]]


def check(ctx):
    ctx.model_check("VectorClockMC", """SPECIFICATION Spec
CONSTANTS Procs = {p, q%s}
 MaxEvents = %d
INVARIANTS Exact Distinct
CHECK_DEADLOCK FALSE
""" % ctx.pick(("", 5), (", r", 6)))
    use_wf(ctx)
    use_grpc(ctx)
    n = ctx.pick(10, 60)
    explain(ctx, [govec_app(ctx.rng, "a%d" % i, [["http"], ["grpc"], ["http", "grpc"]][i % 3]) for i in range(n)], True,
            [failing(ctx, rpc) for rpc in ("http", "grpc")])
