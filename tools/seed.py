"""Helpers to plant a bug: write /verif/seeded/<id>/, confirm it, run checks against it."""
import json, os, shutil, subprocess, sys, glob
V = "/verif"; R = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(id, prop, kind, edits, demo, needs, breaks, flags=None):
    """edits: [(file, old, new)]; demo: text of demo.cpp; kind: engine or unit."""
    assert not sh("git -C %s status --short" % R).stdout.strip(), "repo dirty"
    d = "%s/seeded/%s" % (V, id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) != 1:
            sh("git -C %s checkout -- ." % R)
            print(id, "EDIT matches", s.count(old), "times:", old[:60]); return False
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    sh("git -C %s checkout -- ." % R)
    open(d + "/demo.cpp", "w").write(demo)
    if kind == "engine":
        shutil.copy(V + "/tools/demo/demo.h", d)
    t = open("%s/tools/demo/%s.sh" % (V, kind)).read()
    if flags:
        t = t.replace("#!/bin/bash\n", "#!/bin/bash\nDEMO_FLAGS='%s'\n" % flags)
    open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return confirm(id)

def confirm(id):
    d = "%s/seeded/%s" % (V, id)
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(id, "does not apply", a.stdout); return False
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json") if not b.returncode else None
        ok = t and BASE <= set(json.load(open("/tmp/seed-out.json"))["passed"])
        r1 = sh("cd /repo && bash %s/demo.sh" % d)
    finally:
        sh("git -C /repo checkout -- .")
    good = r0.returncode == 0 and not b.returncode and ok and r1.returncode not in (0, 99)
    print(id, "OK" if good else "BAD", "clean", r0.returncode, "build", b.returncode, "tests", bool(ok), "patched", r1.returncode, flush=True)
    if not good: print(r0.stdout[-250:], r1.stdout[-250:], b.stdout[-250:] if b.returncode else "")
    else: print("   ", r1.stdout.strip()[-300:].replace("\n", " | "))
    return good

def check(id, props=None, tier="quick"):
    """Runs checks against a scratch copy with the bug applied."""
    d = "%s/seeded/%s" % (V, id)
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    w = "/tmp/seedwt-" + id
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(R, w, ignore=shutil.ignore_patterns("_build", ".git"))
    a = sh("cd %s && git init -q . && git apply %s/patch.diff" % (w, d))
    if a.returncode: print(a.stdout)
    res = {}
    for p in props:
        r = sh("cd %s && MC_REPO=%s timeout 900 python3 check.py %s --tier %s" % (V, w, p, tier))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res[p] = (r.returncode, len(v))
        print("  ", id, p, "exit", r.returncode, len(v), "violations;", r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else "", flush=True)
    shutil.rmtree(w, ignore_errors=True)
    return res

if __name__ == "__main__":
    for i in sys.argv[2:]:
        i, _, ps = i.partition("=")
        {"confirm": confirm, "check": lambda x: check(x, ps.split(",") if ps else None)}[sys.argv[1]](i)
