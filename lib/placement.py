"""Where the real plugins' namespaces (processes, containers, deployments, pods) put nodes: events of Placement.tla."""
from common import *
from appgen import use_wf, use_grpc, compile_programs
from deploygen import *


def use_deployments(ctx):
    use_wf(ctx)
    shutil.copy(os.path.join(VERIF, "deploy", "backends.go"), ctx.path("wf", "backends.go"))
    use_grpc(ctx)
    shutil.copy(os.path.join(VERIF, "deploy", "more.go"), ctx.path("harness", "cmd", "drv_compile", "more.go"))


def units(D, xs):
    return [x + ".ctr" if x in D.backs else x for x in xs]


def pool(rng, D):
    """Some services that are called from other processes only get pools of clients."""
    pooled = []
    for s, d in D.svcs.items():
        callers = {c["proc"] for c in D.svcs.values() if s in c["deps"]}
        if d["rpc"] and callers and d["proc"] not in callers and rng.random() < .5:
            i = next(i for i, o in enumerate(D.ops) if o["op"] == d["rpc"] and o["name"] == s)
            if not d["traced"]:
                D.ops.insert(i, {"op": "pool", "name": s, "n": rng.randint(1, 4)})
                pooled.append(s)
    return pooled


def placement(D, pooled):
    members = {p: list(ss) for p, ss in D.procs.items()}
    members.update({c: list(ps) for c, ps in D.ctrs.items()})
    for d, us in D.deps.items():
        if d != "docker":
            members[d] = units(D, us)
    if D.kube:
        members[D.kube + "_kubernetes"] = list(D.pods)
        members.update({p: units(D, us) for p, us in D.pods.items()})
    own = {}
    for s, d in D.svcs.items():
        own[s] = [["dial", D.addr(x)] for x in sorted({x for x in d["deps"] if D.svcs[x]["rpc"]} | set(d["backs"]))]
        own[s] += [["bind", D.addr(s)]] if d["rpc"] else []
    for b in D.used():
        own[b + ".ctr"] = [["bind", D.addr(b)]] + ([["bind", b + ".ui.addr"]] if D.backs[b] == "jaeger" else [])
    pools = {p: sorted({D.addr(x) for s in ss for x in D.svcs[s]["deps"] if x in pooled}) for p, ss in D.procs.items()}
    return {"members": members, "own": own, "pools": pools}


def placements(ctx, Ds):
    about, traces = [], []
    pooled = [pool(ctx.rng, D) for D in Ds]
    progs = [dict(D.program(""), generate=False, tree=True) for D in Ds]
    for p in progs:
        ctx.rng.shuffle(p["build"])
    for D, pl, p, r in zip(Ds, pooled, progs, compile_programs(ctx, progs)):
        if "tree" in r:
            nodes = sorted(r["tree"], key=lambda x: (x["in"], x["n"]))
            ev = [{"e": "env", "k": k, "nodes": nodes} for k in ("once", "twins", "given", "pools")]
        else:
            ev = [{"e": "env", "k": "failed", "error": (r.get("err") or r.get("panic") or "")[:300]}]
        traces.append([{"e": "init", "p": placement(D, pl)}] + ev)
        about.append((p, r))
    ctx.cov["deployments"] = len(Ds)
    ctx.cov["nodes_placed"] = sum(len(t[1].get("nodes", [])) for t in traces)
    ctx.cov["pools"] = sum(map(len, pooled))
    for i, reached in ctx.validate("PlacementTrace", traces, chunk=50)[:5]:
        e = traces[i][reached] if reached < len(traces[i]) else {}
        p, r = about[i]
        ctx.violation("instances and arguments of the plugins' namespaces: %s %s" % (e.get("k"), e.get("error", "")),
                      {"event": e, "placement": traces[i][0]["p"], "program": p, "ir": r.get("ir")})
