#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DIR [--race]: reads edits from a python file on stdin defining
edits=[(file, old, new),...], demo (Go test source), needs, breaks; writes seeded/ID."""
import json, os, subprocess, sys, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, pkgdir = sys.argv[1:4]
race = "-race" if "--race" in sys.argv else ""
ns = {}
exec(sys.stdin.read(), ns)
d = os.path.join(root, "seeded", sid)
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty /repo"
try:
    for f, a, b in ns["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    if "demo_sh" in ns:
        open(d + "/demo.sh", "w").write(ns["demo_sh"])
    elif "run" in ns:
        for n in ("wf", "wiring", "run"):
            open(os.path.join(d, n + ".go"), "w").write(ns[n])
        open(d + "/demo.sh", "w").write(open(os.path.join(root, "tools/gendemo.sh.tmpl")).read().replace("@RACE@", race))
    else:
        open(d + "/demo_test.go", "w").write(ns["demo"])
        t = open(os.path.join(root, "tools/demo.sh.tmpl")).read()
        open(d + "/demo.sh", "w").write(t.replace("@DIR@", pkgdir).replace("@PKG@", pkgdir).replace("@RACE@", race))
    for name, txt in ns.get("files", {}).items():
        open(os.path.join(d, name), "w").write(txt)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    b = subprocess.run("bash /opt/vp/build.sh", shell=True, capture_output=True, text=True, cwd="/repo")
    print("build with patch", b.returncode, b.stderr[-500:])
    r = subprocess.run([d + "/demo.sh"], capture_output=True, text=True, cwd="/repo")
    print("demo with patch:", r.returncode, (r.stdout + r.stderr)[-700:] if r.returncode in (0, 9) else (r.stdout + r.stderr)[:400])
    if pkgdir != "-":
        t = subprocess.run(". /opt/vp/env.sh; cd /repo/%s && go test -count=1 . 2>&1 | tail -5" % pkgdir, shell=True, executable="/bin/bash", capture_output=True, text=True)
        print("pkg tests with patch:", t.stdout[-400:])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
r = subprocess.run([d + "/demo.sh"], capture_output=True, text=True, cwd="/repo")
print("demo unpatched:", r.returncode, (r.stdout + r.stderr)[-700:] if r.returncode else "")
