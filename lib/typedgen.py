"""Random service interfaces: their Go code (package wf), and applications of services that have them."""
from appscen import *

BASIC = ["bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune", "float32", "float64"]
KEYS = ["string", "int", "int64", "uint32", "int32", "uint64", "bool"]
NAMES = ["a", "b", "id", "user_id", "Name2", "tokens", "price_in_cents", "xs", "k9", "n_", "aB_cD", "m", "opts", "data", "from", "to_", "v1"]
FIELDS = ["A", "B", "ID", "User_id", "Name2", "Tokens", "Price_in_cents", "Xs", "K9", "AB_cD", "Data", "X_1", "HTTPCode", "Q"]


class Types:
    """kind "grpc": what the compiler accepts for gRPC; "any": what JSON can carry."""

    def __init__(self, rng, kind, prefix, nstruct=4):
        self.rng, self.kind, self.prefix = rng, kind, prefix
        self.structs = []   # (package, name, fields)
        names = []
        for i in range(nstruct):
            # two of one name, in different packages
            pkg = "sub" if i == 2 else ""
            name = "%sS%d" % (prefix, 0 if i == 2 else i)
            names.append((pkg, name))
        for i, (pkg, name) in enumerate(names):
            self.usable = [n for n in names[:i] if not (pkg == "sub" and n[0] == "")]
            self.me = (pkg, name)
            fields = []
            for f in rng.sample(FIELDS, rng.randint(1, 6)):
                fields.append((f, self.type(field=True)))
            if rng.random() < .4:
                me = self.qual(*self.me, pkg)
                fields.append(("Kids", "[]" + me))
            if rng.random() < .4:
                fields.append(("Next", "*" + self.qual(*self.me, pkg)))
            self.structs.append((pkg, name, fields))
        self.usable, self.me = names, None

    def qual(self, pkg, name, frm=""):
        return name if pkg == frm else pkg + "." + name

    def struct(self):
        p, n = self.rng.choice(self.usable)
        return self.qual(p, n, self.me[0] if self.me else "")

    def type(self, depth=2, field=False):
        rng = self.rng
        r = rng.random()
        leaf = lambda: self.struct() if self.usable and rng.random() < .4 else rng.choice(BASIC)
        if r < .45 or depth == 0:
            return rng.choice(BASIC)
        if r < .6 and self.usable:
            return self.struct()
        inner = (lambda: leaf()) if self.kind == "grpc" else (lambda: self.type(depth - 1))
        if r < .72:
            return "[]" + inner()
        if r < .84:
            return "map[%s]%s" % (rng.choice([k for k in KEYS if self.kind == "grpc" or k != "bool"]), inner())
        if r < .92 and self.usable:
            return "*" + self.struct()
        return "*" + rng.choice(BASIC)

    def code(self, pkg):
        return "".join("type %s struct {\n%s}\n" % (n, "".join("\t%s %s\n" % f for f in fs)) for p, n, fs in self.structs if p == pkg)


class Iface:
    def __init__(self, rng, name, types, nmeth):
        self.name, self.types = name, types
        self.methods = []
        for m in rng.sample(["M0", "Get", "ListAll", "Do", "Login2"], nmeth):
            names = rng.sample(NAMES, rng.randint(0, 4))
            args = [(n, types.type()) for n in names]
            at = rng.randint(0, len(args))
            rets = [types.type() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            self.methods.append((m, args[:at] + [("plan", "string")] + args[at:], at, rets))

    def code(self):
        out = "type %s interface {\n" % self.name
        impl = "type %sImpl struct{ b *Built }\n\nfunc New%sImpl(ctx context.Context, name string) (*%sImpl, error) { return &%sImpl{addAny(name)}, nil }\n" % ((self.name,) * 4)
        for m, args, at, rets in self.methods:
            a = ", ".join("%s %s" % x for x in args)
            r = "(%s)" % ", ".join(rets + ["error"]) if rets else "error"
            out += "\t%s(ctx context.Context, %s) %s\n" % (m, a, r)
            rn = ", ".join(["r%d %s" % x for x in enumerate(rets)] + ["failure error"])
            vals = ", ".join(n for n, t in args if n != "plan")
            impl += "func (s *%sImpl) %s(ctx context.Context, %s) (%s) {\n\tfailure = DoTyped(ctx, s.b, %s, %d, plan, []any{%s}, []any{%s})\n\treturn\n}\n" % (
                self.name, m, a, rn, '"%s"' % m, at, vals, ", ".join("&r%d" % i for i in range(len(rets))))
        return out + "}\n\n" + impl


def caller_code(name, ifaces):
    args = ", ".join("d%d %s" % (i, t) for i, t in enumerate(ifaces))
    return ("type %s struct{ b *Built }\n\nfunc New%s(ctx context.Context, name string, %s) (*%s, error) {\n\treturn &%s{addAny(name, %s)}, nil\n}\n"
            "func (s *%s) Call(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }\n"
            % (name, name, args, name, name, ", ".join("d%d" % i for i in range(len(ifaces))), name))


def write_package(ctx, types, ifaces, callers):
    """Adds the types to the scratch copy of wf, and the cases of the compiler driver that use them."""
    has_sub = any(p == "sub" for t in types for p, _, _ in t.structs)
    uses = "".join(t.code("") for t in types) + "".join(i.code() for i in ifaces)
    code = "package wf\n\nimport (\n\t\"context\"\n%s)\n\n" % ('\t"verif.example/wf/sub"\n' if "sub." in uses else "")
    code += uses + "".join(caller_code(n, ts) for n, ts in callers.items())
    open(ctx.path("wf", "typed.go"), "w").write(code)
    if has_sub:
        os.makedirs(ctx.path("wf", "sub"), exist_ok=True)
        open(ctx.path("wf", "sub", "sub.go"), "w").write("package sub\n\n" + "".join(t.code("sub") for t in types))
    write_more(ctx, [i.name + "Impl" for i in ifaces] + list(callers), [])


def write_more(ctx, typed, balanced):
    """The cases of the compiler driver for services of these types, and for load balancers in front of them."""
    known = ctx.__dict__.setdefault("more", ([], []))
    known[0].extend(typed)
    known[1].extend(balanced)
    cases = "".join('\tcase "typed.%s":\n\t\tworkflow.Service[*wf.%s](spec, o.Name, append([]string{o.S}, o.Deps...)...)\n' % (n, n) for n in known[0])
    cases += "".join('\tcase "typedlb.%s":\n\t\tloadbalancer.CreateLoadBalancer[*wf.%s](spec, o.Name, o.Deps)\n' % (n, n) for n in known[1])
    ctx.workspace()
    open(ctx.path("harness", "cmd", "drv_compile", "more.go"), "w").write(
        'package main\n\nimport (\n\t"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"\n'
        '\t"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"\n'
        '\t"github.com/blueprint-uservices/blueprint/plugins/workflow"\n\t"verif.example/wf"\n)\n\nvar _ = loadbalancer.CreateLoadBalancer[*wf.Leaf]\n\n'
        'func applyMore(spec wiring.WiringSpec, o Op) bool {\n\tswitch o.Op + "." + o.To {\n%s\tdefault:\n\t\treturn false\n\t}\n\treturn true\n}\n' % cases)


def write_ifaces(ctx, apps):   # once, for all that is compiled
    """Interfaces of their own for services (see App.svc), and the types of the services that have them."""
    types = sorted({t for a in apps for t in a.types}, key=str)
    ids = sorted({i for _, f, ds in types for i in (f,) + ds if i is not None})
    name = lambda i: "Svc" if i is None else "If%d" % i
    meth = lambda i: "Call" if i is None else "Run%d" % i
    code = "package wf\n\nimport \"context\"\n\ntype fn struct {\n\tf func(ctx context.Context, arg string) (string, error)\n}\n\nfunc (f fn) Call(ctx context.Context, arg string) (string, error) { return f.f(ctx, arg) }\n\n"
    for i in ids:
        code += "type If%d interface {\n\tRun%d(ctx context.Context, arg string) (string, error)\n}\n\n" % (i, i)
    for t, f, ds in types:
        code += "type %s struct{ b *Built }\n\nfunc New%s(ctx context.Context, name string%s) (*%s, error) {\n\treturn &%s{add(name%s)}, nil\n}\n\n" % (
            t, t, "".join(", d%d %s" % (k, name(i)) for k, i in enumerate(ds)), t, t, "".join(", fn{d%d.%s}" % (k, meth(i)) for k, i in enumerate(ds)))
        code += "func (s *%s) %s(ctx context.Context, arg string) (string, error) { return Do(ctx, s.b, arg) }\n\n" % (t, meth(f))
    open(ctx.path("wf", "ifaces.go"), "w").write(code)
    write_more(ctx, [t for t, _, _ in types], sorted({t for t, f, ds in types if not ds and f is not None}))


def typed_svc(app, s, proc, typ, deps=()):
    app.svc(s, proc, deps)
    app.svcs[s]["iface"] = typ.removesuffix("Impl").lower()
    app.ops[-1] = {"op": "typed", "name": s, "to": typ, "s": "id." + s, "deps": list(deps)}


def typed_app(rng, name, ifaces, callers, kind, mods, collector=""):
    """Services of random interfaces, deployed by RPC `kind` ("" for none), called by one in another process."""
    app, err, c = App(name), Errs(), Ids("t")
    cname = rng.choice(list(callers))
    traced = {}
    if collector:
        app.collector = collector
        app.ops.append({"op": "zipkin", "name": collector})
    deps = []
    for i, t in enumerate(callers[cname]):
        s = "s%d" % i
        typed_svc(app, s, "p1" if kind else "p0", t + "Impl")
        k = rng.random()
        if mods and k < .6:
            for m in rng.sample(["retry", "timeout", "cb", "pool", "latency"], rng.randint(1, 2)):
                if m == "pool" and not kind:
                    continue
                app.mod(s, m, **{"retry": dict(n=2), "timeout": dict(us=20000000), "cb": dict(n=1000, m=100), "pool": dict(n=2), "latency": dict(us=500)}[m])
        if collector and traced.setdefault(t, rng.random() < .85):
            app.mod(s, "otel", own=rng.random() < .8)
        if kind:
            app.mod(s, kind)
        deps.append(s)
    typed_svc(app, "r", "p0", cname, deps)
    by = {i.name: i for i in ifaces}

    def one():
        d = rng.randrange(len(deps))
        t = by[callers[cname][d]]
        m, args, at, rets = rng.choice(t.methods)
        seed = rng.choice([0, rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30)])   # 0: zero values
        p = {"outs": [{"err": err() if rng.random() < .15 else "", "seed": rng.choice([0, rng.randrange(1, 1 << 30), rng.randrange(1, 1 << 30)])}]}
        return top(rng, app, c, "r", d, p, method=m, at=at, seed=seed)
    return app, [[[one() for _ in range(14)]], spread(rng, [one() for _ in range(8)], 3)]
