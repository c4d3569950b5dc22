"""Deployments: wiring programs, evaluation of the artifacts generated for them (docker-compose, Kubernetes,
Dockerfiles, run.sh, .env), and the events of DeployTrace. Containers are not run: the commands of their
Dockerfile that matter are carried out in a scratch directory, where programs are stubs that record their arguments."""
import shlex
import yaml

from common import *

FIXED = {"mongodb": (27017, "nosql"), "redis": (6379, "cache"), "memcached": (11211, "cache"), "mysql": (3306, "sql"),
         "rabbitmq": (5672, "queue"), "zipkin": (9411, "trace"), "jaeger": (14268, "trace")}
SHAPES = {"": (), "DbLeaf": ("nosql",), "KvLeaf": ("cache",), "SqLeaf": ("sql",), "MqLeaf": ("queue",),
          "DbKvOne": ("nosql", "cache", 1), "MqTwo": ("queue", 1, 1)}


class Deployment:
    def __init__(self, name):
        self.name = name
        self.ops = []
        self.svcs = {}     # service -> {rpc, proc, deps: [services], backs: [backends]}
        self.backs = {}    # backend -> kind
        self.procs = {}    # process -> [services]
        self.ctrs = {}     # container -> [processes]
        self.deps = {}     # deployment -> [containers and backends]; "docker" is the default one
        self.pods = {}     # pod -> [containers and backends]
        self.kube = ""
        self.port = 12345
        self.possible = True

    def where(self, proc):
        for c, ps in self.ctrs.items():
            if proc in ps:
                return c
        return "HOST"

    def addr(self, x):
        return x + ".addr" if x in self.backs else "%s.%s.addr" % (x, self.svcs[x]["rpc"])

    def binds(self, proc):
        return [self.addr(s) for s in self.procs[proc] if self.svcs[s]["rpc"]]

    def dials(self, proc):
        out = set()
        for s in self.procs[proc]:
            d = self.svcs[s]
            out |= {self.addr(x) for x in d["deps"] if self.svcs[x]["rpc"]}
            out |= {self.addr(b) for b in d["backs"]}
        return sorted(out)

    def used(self):
        return sorted({b for d in self.svcs.values() for b in d["backs"]})

    def program(self, d):
        ops = list(self.ops)
        ops += [{"op": "proc", "name": p, "deps": ss} for p, ss in self.procs.items()]
        ops += [{"op": "ctr", "name": c, "deps": ps} for c, ps in self.ctrs.items()]
        build = [p for p in self.procs if self.where(p) == "HOST"]
        if self.kube:
            pods = list(self.pods.items())
            for p, cs in pods:
                ops.append({"op": "pod", "name": p, "to": self.kube + "_kubernetes", "s": "reg.example:5000", "deps": cs})
            ops.append({"op": "kube", "name": self.kube, "s": "reg.example:5000", "deps": []})
            build.append(self.kube + "_kubernetes")
        for dep, cs in self.deps.items():
            if dep != "docker":
                ops.append({"op": "compose", "name": dep, "deps": cs})
                build.append(dep)
            else:
                build += [c for c in cs if c not in self.backs]   # what is used is built anyway
        return {"name": self.name, "dir": d, "generate": True, "port": self.port, "ops": ops, "build": build}

    def vars(self):
        out = {}
        for x in list(self.svcs) + list(self.backs):
            if x in self.backs or self.svcs[x]["rpc"]:
                a = self.addr(x)
                env = re.sub(r"\W", "_", a[:-len("addr")]).upper()
                out[a] = {"bind": env + "BIND_ADDR", "dial": env + "DIAL_ADDR", "svc": x}
        if self.backs.get("tr") == "jaeger":
            out["tr.ui.addr"] = {"bind": "TR_UI_BIND_ADDR", "dial": "TR_UI_DIAL_ADDR", "svc": "tr"}
        return out


WORDS = ["user", "cart", "order_svc", "geo", "rate-svc", "mail", "front_end", "a", "b2", "search"]


def rand_deployment(rng, name, kind):
    """kind: which environments the application is deployed to: "host", "compose", "mixed", "kube" """
    D = Deployment(name)
    if rng.random() < .2:
        D.port = rng.choice([1, 1024, 2000, 65500, 65530, 65532, 65535])
    names = rng.sample(WORDS, rng.randint(2, 6))
    nb = 0
    backs = {}
    if rng.random() < .3 and kind != "host":
        k = rng.choice(["zipkin", "jaeger"])
        D.backs["tr"] = k
        backs["trace"] = ["tr"]
        D.ops.append({"op": k, "name": "tr"})
    for k in rng.sample(["mongodb", "redis", "memcached", "mysql", "rabbitmq"], rng.randint(0, 4)) if kind != "host" else []:
        for _ in range(rng.choice([1, 1, 2])):
            b = rng.choice(["%s%d", "%s_db%d"]) % (k[:3], nb)
            nb += 1
            D.backs[b] = k
            D.ops.append({"op": k, "name": b, "s": "q"})
            backs.setdefault(FIXED[k][1], []).append(b)
    for i, s in enumerate(names):
        fit = [sh for sh, need in SHAPES.items() if all(n == 1 and i > 0 or n in backs for n in need)]
        sh = rng.choice(fit) if rng.random() < .7 else ""
        bs, deps = [], []
        if sh:
            args = []
            for n in SHAPES[sh]:
                x = rng.choice(names[:i]) if n == 1 else rng.choice(backs[n])
                args.append(x)
                (deps if n == 1 else bs).append(x)
            D.ops.append({"op": sh, "name": s, "s": "id." + s, "deps": args})
        else:
            deps = [rng.choice(names[:i]) for _ in range(rng.randint(0, 3 if i else 0))]
            D.ops.append({"op": "svc", "name": s, "s": "id." + s, "deps": deps})
        rpc = rng.choice(["http", "grpc"])
        last = i == len(names) - 1
        if last and (deps or bs) and rng.random() < .4:
            rpc = ""       # a process that only calls others
        # collectors of traces are backends of those who are traced
        if "trace" in backs and rpc and rng.random() < .8:
            D.ops.append({"op": "otel", "name": s, "to": "tr"})
            D.svcs[s] = dict(rpc=rpc, deps=deps, backs=bs + ["tr"], traced=True)
        else:
            D.svcs[s] = dict(rpc=rpc, deps=deps, backs=bs, traced=False)
        if rpc:
            D.ops.append({"op": rpc, "name": s})
    # processes have one or several services; calls within one go through RPC all the same
    left = list(names)
    while left:
        ss = [left.pop(0) for _ in range(min(len(left), rng.choice([1, 1, 2])))]
        p = ss[0] + rng.choice(["_proc", "-proc", "_p"])
        D.procs[p] = ss
        for s in ss:
            D.svcs[s]["proc"] = p
    # clients of traced services are traced by the collector too
    for s, d in D.svcs.items():
        if any(D.svcs[x]["traced"] for x in d["deps"]) and "tr" not in d["backs"]:
            d["backs"].append("tr")
    ps = list(D.procs)
    host = set(ps) if kind == "host" else {p for p in ps if rng.random() < .4} if kind == "mixed" else set()
    left = [p for p in ps if p not in host]
    while left:
        cs = [left.pop() for _ in range(min(len(left), rng.choice([1, 1, 2, 3])))]
        D.ctrs[cs[0].split("_p")[0].split("-p")[0] + rng.choice(["_ctr", "-ctr"])] = cs
    units = list(D.ctrs) + D.used()
    rng.shuffle(units)
    if kind == "kube":
        D.kube = "app"
        while units:
            cs = [units.pop() for _ in range(min(len(units), rng.choice([1, 1, 2, 3])))]
            D.pods[cs[0] + "_pod"] = cs
            fixed = [FIXED[D.backs[x]][0] for x in cs if x in D.backs] + [16686 for x in cs if D.backs.get(x) == "jaeger"]
            if len(set(fixed)) < len(fixed):
                D.possible = False    # two of one kind in a pod: both have the same port
    elif kind != "host":
        for k in rng.sample(["docker", "dep1", "dep2"], rng.choice([1, 1, 2])):
            D.deps[k] = []
        # a backend that is in none comes into being in whichever needs it first
        own = [k for k in D.deps if k != "docker"] or ["docker"]
        for u in units:
            D.deps[rng.choice(own if u in D.backs else list(D.deps))].append(u)
        D.deps = {k: v for k, v in D.deps.items() if v}
    addrs = {a for p in D.procs for a in D.binds(p) + D.dials(p)} | ({"tr.ui.addr"} if "tr" in D.used() and D.backs["tr"] == "jaeger" else set())
    if D.port + len(addrs) - 1 > 65535:
        D.possible = False
    return D


# ------------------------------------------------------------------ artifacts

def hostport(v):
    h, _, p = v.rpartition(":")
    if not h or not re.fullmatch(r"\d+", p):
        return {"h": v, "p": 0}
    return {"h": h, "p": int(p)}


def read_env(path):
    out = {}
    for l in open(path):
        if l.strip():
            k, _, v = l.strip().partition("=")
            if k in out:
                raise ValueError("%s is set twice in %s" % (k, path))
            out[k] = hostport(v)
    return out


def compose_value(v):
    m = re.fullmatch(r"\$\{(\w+)(\?[^}]*|:-)?\}", v)
    if m:
        return dict(k="opt" if m.group(2) == ":-" else "ref", **{"from": m.group(1)})
    return dict(k="lit", **hostport(v))


def read_compose(D, d, net):
    y = yaml.safe_load(open(os.path.join(d, "docker-compose.yml")))
    insts, dirs = [], {}
    for name, s in y["services"].items():
        env = [dict(n=e.partition("=")[0], **compose_value(e.partition("=")[2])) for e in s.get("environment") or []]
        ports = []
        for p in s.get("ports") or []:
            out, _, internal = p.rpartition(":")
            ports.append(dict(compose_value(out), int=int(internal)))
        insts.append({"n": name, "host": s.get("hostname", name), "net": net + "." + name, "env": env, "ports": ports, "pre": []})
        if "build" in s:
            b = s["build"]
            dirs[name] = (os.path.join(d, b["context"]), os.path.join(d, b["context"], b["dockerfile"]))
        elif not s.get("image"):
            raise ValueError("%s has neither an image nor is it built" % name)
    return insts, dirs


LABEL = re.compile(r"[a-z]([-a-z0-9]{0,61}[a-z0-9])?")


def read_kube(d):
    docs = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".yaml"):
            docs += [x for x in yaml.safe_load_all(open(os.path.join(d, f))) if x]
    by = lambda k: [x for x in docs if x["kind"] == k]
    maps = {m["metadata"]["name"]: m["data"] or {} for m in by("ConfigMap")}
    pods = []
    for x in by("Deployment"):
        t = x["spec"]["template"]
        labels = t["metadata"]["labels"]
        sel = x["spec"]["selector"]["matchLabels"]
        svcs = [s for s in by("Service") if s["spec"]["selector"].items() <= labels.items()]
        if len(svcs) != 1:
            raise ValueError("pod %s has %d services" % (x["metadata"]["name"], len(svcs)))
        names = [x["metadata"]["name"], svcs[0]["metadata"]["name"]]
        insts = []
        for c in t["spec"]["containers"]:
            env = []
            for e in c.get("env") or []:
                if "valueFrom" in e:
                    r = e["valueFrom"]["configMapKeyRef"]
                    v = maps.get(r["name"], {})
                    env.append(dict(n=e["name"], k="ref", **{"from": r["key"] if r["key"] in v else "?"}))
                else:
                    env.append(dict(n=e["name"], k="lit", **hostport(e["value"])))
            insts.append({"n": c["name"], "image": c.get("image") or "", "env": env, "pre": []})
            names.append(c["name"])
        ports = svcs[0]["spec"].get("ports") or []
        names += [p["name"] for p in ports]
        pods.append({"n": names[0], "svcname": names[1], "net": "pod." + names[0], "insts": insts,
                     "legal": all(LABEL.fullmatch(n) for n in names) and sel.items() <= labels.items(),
                     "svc": [{"n": p["name"], "port": p["port"], "target": p.get("targetPort", p["port"])} for p in ports]})
    cm = {}
    for m in maps.values():
        cm.update({k: hostport(v) for k, v in m.items()})
    return pods, cm


STUB = """#!/bin/sh
{ printf '%%s\\n' "$(pwd)"; for a in "$@"; do printf '%%s\\n' "$a"; done; } > %s/started.$$
"""


def stub(path, rec):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(STUB % shlex.quote(rec))
    os.chmod(path, 0o755)


def started(rec):
    out = []
    for f in sorted(os.listdir(rec)):
        ls = open(os.path.join(rec, f)).read().split("\n")[:-1]
        out.append((ls[0], ls[1:]))
    return out


def run_script(cmd, cwd, env, rec):
    os.makedirs(rec, exist_ok=True)
    e = {"PATH": "/usr/bin:/bin", "HOME": cwd}
    e.update(env)
    r = run(cmd, cwd=cwd, env=e, timeout=60)
    return started(rec), r.stdout + r.stderr


def show(env):
    return {k: "%s:%d" % (v["h"], v["p"]) if v["p"] else v["h"] for k, v in env.items()}


def is_main(d):
    return os.path.isdir(d) and any(re.search(r"^func main\(\)", open(os.path.join(d, f)).read(), re.M) for f in os.listdir(d) if f.endswith(".go"))


def run_host(d, env, tmp):
    """run.sh on the machine. Returns [(process, arguments)]"""
    rec = os.path.join(tmp, "rec")
    stub(os.path.join(tmp, "bin", "go"), rec)
    got, out = run_script(["bash", "./run.sh"], d, dict(show(env), PATH=os.path.join(tmp, "bin") + ":/usr/bin:/bin"), rec)
    res = []
    for cwd, args in got:
        if args[:2] != ["run", "."]:
            raise ValueError("run.sh runs go %s" % args)
        if not is_main(cwd):
            raise ValueError("run.sh runs %s, which has no main" % cwd)
        res.append((os.path.basename(cwd), args[2:]))
    return res, out


def run_container(ctxdir, dockerfile, env, tmp):
    """The Dockerfile's steps, then its entry point, in a scratch directory."""
    rec = os.path.join(tmp, "rec")
    text = open(dockerfile).read()
    stages, cur = {}, None
    entry = None
    lines = [l for l in re.sub(r"\\\n", " ", text).split("\n") if l.strip() and not l.strip().startswith("#")]
    for l in lines:
        op, _, rest = l.strip().partition(" ")
        op = op.upper()
        if op == "FROM":
            m = re.fullmatch(r"(\S+)(?:\s+[Aa][Ss]\s+(\S+))?", rest.strip())
            cur = {"root": os.path.join(tmp, "stage%d" % len(stages)), "wd": "/"}
            os.makedirs(cur["root"])
            stages[m.group(2) or "final"] = cur
            continue
        at = lambda p: os.path.normpath(cur["root"] + os.path.normpath(os.path.join(cur["wd"], p)))
        if op == "COPY":
            args = rest.split()
            frm = None
            if args[0].startswith("--from="):
                frm = args.pop(0)[7:]
            src, dst = args
            if frm and frm not in stages:
                continue     # a file of another image
            p = stages[frm]["root"] + src if frm else os.path.join(ctxdir, src)
            q = at(dst)
            if os.path.isdir(p):
                shutil.copytree(p, q, dirs_exist_ok=True)
            else:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy(p, os.path.join(q, os.path.basename(p)) if dst.endswith("/") or os.path.isdir(q) else q)
        elif op == "WORKDIR":
            cur["wd"] = os.path.join(cur["wd"], rest.strip())
            os.makedirs(at("."), exist_ok=True)
        elif op == "RUN":
            args = json.loads(rest) if rest.startswith("[") else shlex.split(rest)
            if args[0] == "mkdir":
                os.makedirs(at(args[-1]))
            elif args[:2] == ["go", "build"]:
                i = args.index("-o")
                out, pkg = at(args[i + 1]), at(args[i + 2])
                if not is_main(pkg):
                    raise ValueError("Dockerfile builds %s, which has no main" % args)
                stub(os.path.join(out, os.path.basename(pkg)) if os.path.isdir(out) else out, rec)
            elif args[:2] == ["go", "mod"] or args[0] == "/bin/sh":
                pass
            else:
                raise CheckError("Dockerfile runs %s" % rest)
        elif op == "ENTRYPOINT":
            entry = json.loads(rest)
        else:
            raise CheckError("Dockerfile has %s" % l)
    if not entry or os.path.basename(entry[0]) != "sh":
        raise CheckError("entry point %s" % entry)
    root = stages["final"]["root"]
    got, out = run_script(["dash"] + entry[1:], root, show(env), rec)
    return [(os.path.basename(cwd), args) for cwd, args in got], out


def split_args(D, args):
    """--name=value of the addresses"""
    out = []
    for a in args:
        k, _, v = a.partition("=")
        k = k.lstrip("-")
        m = re.fullmatch(r"(.*)(bind|dial)_addr", k)
        if m:
            out.append(dict(a=m.group(1) + "addr", k=m.group(2), **hostport(v)))
    return out


def clean(n):
    return re.sub(r"\W", "_", n)


class Bad(Exception):
    pass


def events(ctx, D, gen, rec, file):
    """Deploys what was generated; file: which environment file is used."""
    ok = not (rec.get("err") or rec.get("generr"))
    ev = [{"e": "env", "k": "compile", "ok": ok}]
    if not ok or not D.possible:
        return ev
    out = os.path.join(gen, "out")
    vars_ = D.vars()
    both = {f: read_env(os.path.join(out, n)) for f, n in (("local", ".local.env"), ("dns", ".env"))}
    env = both[file]
    ev.append({"e": "env", "k": "source", "file": file, "env": env, "other": both["local" if file == "dns" else "dns"]})
    places = {}   # container -> (net, name, dirs, environment)
    pre = lambda b: [{"p": FIXED[D.backs[b]][0], "a": D.addr(b)}] + ([{"p": 16686, "a": "tr.ui.addr"}] if D.backs[b] == "jaeger" else [])
    nets = {}
    for dep, cs in D.deps.items():
        insts, dirs = read_compose(D, os.path.join(out, dep), dep)
        have = {i["n"]: i for i in insts}
        for c in cs:
            name = clean(c + ".ctr") if c in D.backs else clean(c)
            if name not in have:
                raise Bad("%s is not in the docker-compose file of %s" % (c, dep))
            i = have[name]
            if c in D.backs:
                i["pre"] = pre(c)
            else:
                e = {v["n"]: env[v["from"]] if "from" in v else hostport("%s:%d" % (v["h"], v["p"])) if v["p"] else {"h": v["h"], "p": 0}
                     for v in i["env"] if "from" not in v or v["from"] in env}
                places[c] = (i["net"], name, dirs[name], e)
        if len(have) != len(cs):
            raise Bad("the docker-compose file of %s has %s" % (dep, sorted(have)))
        ev.append({"e": "env", "k": "up", "insts": insts})
    if D.kube:
        d = os.path.join(out, D.kube + "_kubernetes")
        pods, cm = read_kube(d)
        byc = {}
        for p in pods:
            for i in p["insts"]:
                byc.setdefault(i["n"], []).append((p, i))
        for pod, cs in D.pods.items():
            for c in cs:
                name = (clean(c + ".ctr") if c in D.backs else clean(c)).replace("_", "-")
                if len(byc.get(name, [])) != 1:
                    raise Bad("%s is in %d pods" % (c, len(byc.get(name, []))))
                p, i = byc[name][0]
                if c in D.backs:
                    i["pre"] = pre(c)
                else:
                    e = {v["n"]: cm.get(v["from"], {"h": "?", "p": 0}) if "from" in v else {"h": v["h"], "p": v["p"]} for v in i["env"]}
                    dd = os.path.join(d, clean(c))
                    places[c] = (p["net"], name, (dd, os.path.join(dd, "Dockerfile")), e)
        ev.append({"e": "env", "k": "kube", "pods": pods, "cm": cm})
    # processes start
    seen = {}
    for c in ["HOST"] + list(D.ctrs):
        ps = [p for p in D.procs if D.where(p) == c]
        if not ps:
            continue
        tmp = ctx.fresh("run")
        if c == "HOST":
            net, name = "HOST", ""
            # a directory of a name that shells have to be careful with
            work = os.path.join(tmp, "my app")
            shutil.copytree(os.path.join(out, "linux"), work, symlinks=True, ignore=lambda p, fs: [f for f in fs if f in ("runtime", "wf")])
            got, text = run_host(work, env, os.path.join(tmp))
        else:
            net, name, (d, df), e = places[c]
            got, text = run_container(d, df, e, tmp)
        shutil.rmtree(tmp)
        for proc, args in got:
            cand = [p for p in ps if clean(p) == proc]
            if not cand or cand[0] in seen:
                raise Bad("%s is started in %s %s" % (proc, c, "again" if cand else ""))
            p = cand[0]
            args = split_args(D, args)
            seen[p] = (net, args)
            want = {(a, "bind") for a in D.binds(p)} | {(a, "dial") for a in D.dials(p)}
            if {(a["a"], a["k"]) for a in args} != want:
                raise Bad("%s is started with %s, has %s" % (p, sorted((a["a"], a["k"]) for a in args), sorted(want)))
            ev.append({"e": "env", "k": "start", "net": net, "ctr": name, "proc": p, "args": args})
        for p in ps:
            if p not in seen:
                raise Bad("%s is not started in %s: %s" % (p, c, text[-300:]))
    for p, (net, args) in seen.items():
        for a in args:
            # without names for what is on the machine, only what runs there can use it
            if a["k"] == "dial" and (file == "dns" or net == "HOST" or a["h"] != "localhost" or D.kube):
                ev.append({"e": "env", "k": "dial", "net": net, "a": a["a"], "h": a["h"], "p": a["p"]})
    return ev


def cfg(D):
    return {"vars": D.vars(), "dns": sorted(v["svc"] for v in D.vars().values()), "possible": D.possible}
