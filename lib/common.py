"""Shared machinery of the checks: scratch workspace, Go builds against /repo's
working tree, TLC runs, trace validation, evidence and verdicts.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
Verdicts come only from what the real code did; everything else is exit 2.
"""
from concurrent.futures import ThreadPoolExecutor
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MISSING = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"
ROOT_PKG = "github.com/blueprint-uservices/blueprint"


LIN_SUBST = "CONSTANTS InitState <- TInit\n Steps <- TSteps\n EnvSteps <- TEnv\n"


class CheckError(Exception):
    """The check itself could not be carried out (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        base = os.environ.get("VERIF_SCRATCH") or ("/tmp" if os.path.isdir("/tmp") else None)
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
        atexit.register(self._cleanup)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self._n = 0
        self._ws = None
        self.extra_uses = []
        self.replaces = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            log("kept", self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def fresh(self, prefix):
        self._n += 1
        d = self.path("%s%d" % (prefix, self._n))
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------- Go
    def goenv(self):
        ws = self.workspace()
        env = dict(os.environ)
        env.update({
            "GOTOOLCHAIN": "local", "GOPROXY": "off", "GONOSUMDB": "*", "GONOSUMCHECK": "1",
            "GOFLAGS": "-overlay=" + self.path("overlay.json"),
            "GOWORK": ws, "CGO_ENABLED": "1",
            "GOCACHE": os.environ.get("GOCACHE", os.path.expanduser("~/.cache/go-build")),
            "GOMODCACHE": os.environ.get("GOMODCACHE", os.path.expanduser("~/go/pkg/mod")),
            "PATH": "/usr/local/bin:" + os.environ.get("PATH", ""),
        })
        env.setdefault("HOME", "/root")
        return env

    def repo_modules(self):
        """Directories of the modules of /repo's go.work, minus what cannot be built."""
        txt = open(os.path.join(REPO, "go.work"), encoding="utf-8").read()
        dirs = re.findall(r"^\s*(?:use\s+)?(\./[^\s)]+)", txt, re.M)
        return [os.path.normpath(os.path.join(REPO, d)) for d in dirs]

    def workspace(self):
        """A go.work in scratch over /repo's modules and the harness, with an overlay that
        drops the one requirement that cannot be fetched."""
        if self._ws:
            return self._ws
        replace = {}
        uses = []
        ovdir = self.path("ovl")
        os.makedirs(ovdir, exist_ok=True)
        for d in self.repo_modules():
            gm = os.path.join(d, "go.mod")
            if not os.path.exists(gm):
                raise CheckError("no go.mod in " + d)
            text = open(gm, encoding="utf-8").read()
            new = re.sub(r"(?m)^\s*(?:require\s+)?" + re.escape(MISSING) + r"\s.*\n", "", text)
            if new != text:
                dst = os.path.join(ovdir, os.path.relpath(d, REPO).replace("/", "_") + "_go.mod")
                open(dst, "w", encoding="utf-8").write(new)
                replace[gm] = dst
            uses.append(d)
        json.dump({"Replace": replace}, open(self.path("overlay.json"), "w"), indent=1)
        self._overlay = replace
        hs = self.path("harness")
        shutil.copytree(HARNESS, hs, dirs_exist_ok=True)
        uses.append(hs)
        for extra in self.extra_uses:
            uses.append(extra)
        wsdir = self.path("ws")
        os.makedirs(wsdir, exist_ok=True)
        ws = os.path.join(wsdir, "go.work")
        lines = ["go 1.25.0\n"] + ["use %s\n" % u for u in uses]
        for k, v in self.replaces.items():
            lines.append("replace %s => %s\n" % (k, v))
        open(ws, "w").write("".join(lines))
        src = os.path.join(REPO, "go.work.sum")
        extra = os.path.join(HARNESS, "extra.sum")
        txt = open(src).read() if os.path.exists(src) else ""
        if os.path.exists(extra):
            txt += open(extra).read()
        open(os.path.join(wsdir, "go.work.sum"), "w").write(txt)
        self._ws = ws
        return ws

    def add_overlay(self, mapping):
        """Adds file replacements (original path -> scratch path)."""
        self.workspace()
        self._overlay.update(mapping)
        json.dump({"Replace": self._overlay}, open(self.path("overlay.json"), "w"), indent=1)

    def go(self, args, cwd=None, timeout=600, check=True, env=None):
        e = self.goenv()
        if env:
            e.update(env)
        r = run(["go"] + args, cwd=cwd or self.path("harness"), env=e, timeout=timeout)
        if check and r.returncode != 0:
            raise CheckError("go %s failed:\n%s" % (" ".join(args), tail(r.stdout + r.stderr)))
        return r

    def build(self, pkg, race=False, tags=None, cwd=None):
        self.workspace()
        out = self.path("bin_" + re.sub(r"[^A-Za-z0-9]", "_", pkg) + ("_race" if race else ""))
        args = ["build", "-o", out]
        if race:
            args.append("-race")
        if tags:
            args += ["-tags", tags]
        self.go(args + [pkg], cwd=cwd, timeout=800)
        return out

    def instrument(self, pkgdirs):
        """Overlays every non-test file of the given /repo package directories with a copy that
        calls the harness scheduler's yield point between statements (schedule perturbation)."""
        self.workspace()
        tool = self.build("./cmd/yieldify")
        mapping = {}
        for d in pkgdirs:
            out = self.fresh("yield")
            full = d if os.path.isabs(d) else os.path.join(REPO, d)
            r = run([tool, full, out], timeout=60)
            if r.returncode != 0:
                raise CheckError("yieldify failed: " + tail(r.stderr))
            mapping.update(json.loads(r.stdout))
        self.add_overlay(mapping)

    # --------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers="auto", timeout=800, extra=None, files=None, deadlock=True,
            jvm=None, simulate=None, heap="6g", d=None):
        """Runs TLC on spec/<module>.tla with the cfg text in a scratch copy of spec/.
        Returns TlcResult."""
        d = d or self.fresh("tlc")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (files or {}).items():
            open(os.path.join(d, name), "w").write(content)
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"] + (jvm or []) + ["-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += simulate
        cmd += extra or []
        cmd += ["-config", module + ".cfg", module + ".tla"]
        r = run(cmd, cwd=d, timeout=timeout)
        return TlcResult(r, d)

    def model_check(self, module, cfg, **kw):
        """Exhaustive check of the specification itself. A failure here is an error of the check
        (the specification is wrong), never a verdict about the code."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("specification %s does not check:\n%s" % (module, tail(r.out)))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return r

    def validate(self, module, traces, consts="", workers=1, timeout=800, chunk=400, heap="3g", spec="TraceSpec", lin=True, parallel=6):
        """Validates traces (list of list-of-events) against spec/<module>.tla, whose TraceSpec
        explores all of them, one initial state per trace, and reports through the TLC register
        the furthest position reached in each. Returns the list of (index, reached) rejected."""
        # the registers of TLC belong to one worker: chunks run side by side in processes of their own
        jobs = [(lo, traces[lo:lo + chunk], self.fresh("tv")) for lo in range(0, len(traces), chunk)]
        dirs = [self.fresh("tlc") for _ in jobs]

        def one(job, d2):
            lo, part, d = job
            tf = os.path.join(d, "traces.ndjson")
            with open(tf, "w") as f:
                for t in part:
                    f.write(json.dumps(t) + "\n")
            cfg = "SPECIFICATION %s\nCONSTANT TraceFile = \"%s\"\n%sCONSTRAINT TraceProgress\nPOSTCONDITION TraceReport\nCHECK_DEADLOCK FALSE\n%s" % (spec, tf, LIN_SUBST if lin else "", consts)
            return self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, d=d2)
        with ThreadPoolExecutor(parallel) as ex:
            results = list(ex.map(one, jobs, dirs))
        bad = []
        for (lo, part, d), r in zip(jobs, results):
            m = re.search(r"TRACE-REPORT (.*)", r.out)
            if not m:
                # An invariant violated inside a trace behaviour would be a spec error; report.
                raise CheckError("no trace report from %s:\n%s" % (module, tail(r.out)))
            reached = [int(x) for x in re.findall(r"-?\d+", m.group(1))]
            if len(reached) != len(part):
                raise CheckError("trace report has %d entries for %d traces" % (len(reached), len(part)))
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            for i, t in enumerate(part):
                if reached[i] < len(t):
                    bad.append((lo + i, reached[i]))
                else:
                    self.cov["traces_validated_against_impl"] += 1
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(r.dir, ignore_errors=True)
        return bad

    # ---------------------------------------------------------- verdicts
    def sample(self, x, n=3):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def violation(self, what, data):
        """Records a violation, unless the known-findings file lists exactly it."""
        k = match_known(self.prop, data)
        if k:
            self.known_hit.append(k)
            return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        body = json.dumps({"property": self.prop, "seed": self.seed, "what": what, "data": data}, indent=1, default=str)
        p = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(p, "w").write(body)
        self.violations.append((what, p))
        log("violation:", what)

    def finish(self):
        for k in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1, default=str)
        if self.violations:
            for what, p in self.violations[:5]:
                print("# " + what.replace("\n", " ")[:300])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s held: %s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if k != "samples"})))
        return 0


class TlcResult:
    def __init__(self, r, d):
        self.out = r.stdout + r.stderr
        self.rc = r.returncode
        self.dir = d
        self.ok = "Model checking completed. No error has been found." in self.out or (
            r.returncode == 0 and "Error:" not in self.out)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", self.out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0


class Result:
    def __init__(self, rc, out, err):
        self.returncode, self.stdout, self.stderr = rc, out, err
        self.timed_out = False


def run(cmd, cwd=None, env=None, timeout=600, input=None, dump=False):
    """Runs a command in its own process group; kills the group on timeout."""
    with tempfile.TemporaryFile("w+", errors="replace") as fo, tempfile.TemporaryFile("w+", errors="replace") as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=fo, stderr=fe,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                             start_new_session=True, text=True)
        to = False
        try:
            if input is not None:
                try:
                    p.communicate(input, timeout=timeout)
                except BrokenPipeError:
                    p.wait(timeout)
            else:
                p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            if dump:  # a Go program prints where its goroutines are
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    pass
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        fo.seek(0)
        fe.seek(0)
        r = Result(p.returncode, fo.read(), fe.read())
        r.timed_out = to
        if to:
            r.returncode = -999
        return r


def tail(s, n=6000):
    return s[-n:]


def known_path():
    return os.path.join(VERIF, "known_findings.json")


def known_findings(prop=None):
    if not os.path.exists(known_path()):
        return []
    ks = json.load(open(known_path())).get("findings", [])
    return [k for k in ks if prop is None or k["property"] == prop]


def match_known(prop, data):
    """A finding matches when every key of its 'match' equals the same key of the data."""
    if not isinstance(data, dict):
        return None
    for k in known_findings(prop):
        m = k.get("match") or {}
        if m and all(data.get(a) == b for a, b in m.items()):
            return k
    return None


def read_ndjson(p):
    out = []
    with open(p, errors="replace") as f:
        for line in f:
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def run_driver(ctx, binary, args, timeout=300, env=None, crash_is=None):
    """Runs a driver of the harness. The driver exits 0 when it could drive the code to the end.
    Crashes of the code under test (Go runtime fatal errors, data races reported by the race
    detector, unrecovered panics in /repo's code) are returned as a description."""
    e = dict(os.environ)
    e.setdefault("GORACE", "halt_on_error=0 exitcode=66 history_size=3")
    e["VERIF_SEED"] = str(ctx.seed)
    if env:
        e.update(env)
    r = run([binary] + [str(a) for a in args], timeout=timeout, env=e, cwd=ctx.dir, dump=True)
    crash = None
    txt = r.stderr
    if r.timed_out and REPO + "/" in txt:
        i = txt.find(REPO + "/")
        crash = {"kind": "hang", "first": "a call never returned", "text": txt[max(0, i - 1500):i + 2500]}
    elif r.timed_out:
        raise CheckError("driver %s timed out\n%s" % (os.path.basename(binary), tail(txt)))
    elif r.returncode == 66 or "WARNING: DATA RACE" in txt:
        m = re.search(r"WARNING: DATA RACE.*?(?=\n==================)", txt, re.S)
        body = m.group(0) if m else txt
        crash = {"kind": "datarace", "text": tail(body, 4000)}
    elif r.returncode != 0:
        m = re.search(r"^(fatal error: .*|panic: .*)$", txt, re.M)
        if m and "HARNESS" not in m.group(1):
            crash = {"kind": "crash", "first": m.group(1), "text": txt[:4000]}
        elif r.returncode == 1 and "HARNESS" not in txt:
            crash = {"kind": "exit", "first": "ended the process", "text": "exit status 1 in " + REPO + "/\n" + tail(r.stdout + txt)}
        else:
            raise CheckError("driver %s failed (%d)\n%s" % (os.path.basename(binary), r.returncode, tail(txt)))
    return r, crash


def dedupe(traces):
    seen, out = set(), []
    for t in traces:
        k = json.dumps(t, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
        rc = ctx.finish()
    except CheckError as e:
        log("CHECK ERROR:", e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
