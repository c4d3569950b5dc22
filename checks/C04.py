from common import *
from appgen import use_wf, use_grpc, compile_programs
from deploygen import *


DESIGN = """SPECIFICATION Spec
CONSTANTS Servers = %s
 FixedPort = 6379
 Initial = 20000
INVARIANTS NeverWrong InTheEnd
CHECK_DEADLOCK FALSE
"""


def ports_input(rng, n):
    ps = rng.choice([[0, 0, 2000, 2001, 2002, 12345], [0, 0, 65535, 65534, 1, 2000], [0, 0, 0, 27017, 6379]])
    return [{"port": rng.choice(ps) if rng.random() < .4 else 0, "pref": rng.choice(ps)} for _ in range(n)]


def check(ctx):
    rng = ctx.rng
    ctx.model_check("DeployMC", DESIGN % ctx.pick('{"x", "y", "z"}', '{"w", "x", "y", "z"}'))
    use_wf(ctx)
    shutil.copy(os.path.join(VERIF, "deploy", "backends.go"), ctx.path("wf", "backends.go"))
    use_grpc(ctx)
    shutil.copy(os.path.join(VERIF, "deploy", "more.go"), ctx.path("harness", "cmd", "drv_compile", "more.go"))
    n = ctx.pick(40, 400)
    kinds = ["host", "compose", "mixed", "mixed", "kube", "kube"]
    Ds = [rand_deployment(rng, "app%d" % i, kinds[i % len(kinds)]) for i in range(n)]
    traces, about = [], []
    for lo in range(0, n, 40):
        part = Ds[lo:lo + 40]
        recs = compile_programs(ctx, [D.program(ctx.path("gen", D.name)) for D in part])
        for D, r in zip(part, recs):
            if r.get("panic"):
                ctx.violation("an application cannot be compiled: " + r["panic"][:200], {"program": D.program(""), "error": r["panic"]})
                continue
            for file in ["dns"] if D.kube else ["local", "dns"]:
                try:
                    ev = events(ctx, D, ctx.path("gen", D.name), r, file)
                except (Bad, ValueError, KeyError, TypeError, yaml.YAMLError, OSError) as e:
                    ctx.violation("%s: %s" % (type(e).__name__, str(e)[:200]), {"program": D.program(""), "error": str(e)})
                    continue
                traces.append([{"e": "init", "cfg": cfg(D)}] + ev)
                about.append((D, r))
            shutil.rmtree(ctx.path("gen", D.name), ignore_errors=True)
    # assignment of ports
    b = ctx.build("./cmd/drv_ports")
    cases = [ports_input(rng, rng.randint(0, 7)) for _ in range(ctx.pick(400, 6000))]
    r = run([b], input="\n".join(map(json.dumps, cases)) + "\n", timeout=120)
    if r.returncode != 0:
        raise CheckError("drv_ports failed: " + tail(r.stderr))
    res = [json.loads(l) for l in r.stdout.split("\n") if l]
    for lo in range(0, len(res), 50):
        traces.append([{"e": "init", "cfg": {"vars": {}, "dns": [], "possible": True}}] +
                      [{"e": "env", "k": "ports", "in": i, "err": o["err"], "out": o["out"]} for i, o in zip(cases[lo:lo + 50], res[lo:lo + 50])])
        about.append(None)
    ctx.cov["deployments"] = n
    ctx.cov["events"] = {k: sum(1 for t in traces for e in t if e.get("k") == k) for k in ("compile", "up", "kube", "start", "dial", "ports")}
    log("%d traces, %s" % (len(traces), ctx.cov["events"]))
    for i, reached in ctx.validate("DeployTrace", traces, chunk=20)[:5]:
        t = traces[i]
        e = t[reached] if reached < len(t) else None
        data = {"event": e, "explained_prefix": reached, "events": t}
        if about[i]:
            D, r = about[i]
            data.update(program=D.program(""), error=r.get("err") or r.get("generr"))
        ctx.violation("deployment: %s %s" % ((e or {}).get("k"), json.dumps(e)[:200]), data)
    if traces:
        ctx.sample({"events": traces[0][:6]})
