#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--build-only]

Builds the property's harness against /repo's current working tree, explores
its bounded choice tree exhaustively on all cores, replays every violation,
writes evidence/<property>.json and prints one VIOLATION line per violation
that known_findings.json does not list."""
import concurrent.futures as cf
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NPROC = os.cpu_count() or 4

CXX = ["g++", "-std=c++17", "-O1", "-g1", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-w",
       "-fno-omit-frame-pointer", "-DFCITX_GETTEXT_DOMAIN=\"fcitx5-mcbopomofo\"", "-DFMT_SHARED"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,returns-nonnull-attribute"]
INC = ["-I" + HERE + "/harness", "-I" + REPO + "/src", "-I" + REPO + "/src/Engine",
       "-I" + REPO + "/src/Engine/Mandarin", "-I" + REPO + "/src/Engine/gramambular2",
       "-I" + REPO + "/src/ChineseNumbers", "-I/usr/include/json-c",
       "-I/usr/include/Fcitx5/Module/fcitx-module/notifications",
       "-isystem", "/usr/include/Fcitx5/Core", "-isystem", "/usr/include/Fcitx5/Config",
       "-isystem", "/usr/include/Fcitx5/Utils"]
LIBS = ["-lFcitx5Core", "-lFcitx5Config", "-lFcitx5Utils", "-lfmt", "-ljson-c", "-licuuc", "-licui18n", "-ldl", "-lpthread"]

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def repo_sources(groups):
    out = []
    def add(pat):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if re.search(r"(Test|_test|Benchmark|_benchmark)\.(cpp|cc)$", f):
                continue
            if os.path.basename(f) == "McBopomofo.cpp" and "addon" not in groups:
                continue
            if f not in out:
                out.append(f)
    for g in groups:
        if g == "engine":
            for d in ("src/Engine/*.cpp", "src/Engine/gramambular2/*.cpp", "src/Engine/Mandarin/*.cpp"):
                add(d)
        elif g == "numbers":
            add("src/ChineseNumbers/*.cpp")
        elif g == "macros":
            add("src/InputMacro.cpp")
        elif g == "core":
            add("src/*.cpp")
        elif g == "addon":
            add("src/McBopomofo.cpp")
    return out


def fhash(p, cache={}):
    try:
        st = os.stat(p)
    except OSError:
        return "absent"
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(p, "rb") as f:
            cache[k] = hashlib.sha256(f.read()).hexdigest()
    return cache[k]


def compile_one(src, flags):
    cmd = CXX + flags + INC + ["-c", src]
    key = hashlib.sha256((" ".join(cmd)).encode()).hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, os.path.basename(src) + "." + key + ".o")
    meta = obj + ".json"
    try:
        with open(meta) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(fhash(d) == h for d, h in deps.items()):
            return obj, None
    except (OSError, ValueError):
        pass
    tmp = "%s.%d" % (obj, os.getpid())
    r = subprocess.run(cmd + ["-MD", "-MF", tmp + ".d", "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    with open(tmp + ".d") as f:
        d = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(tmp + ".d")
    deps = {x: fhash(x) for x in d if not x.startswith("/usr/")}
    os.replace(tmp, obj)
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.replace(meta + ".%d" % os.getpid(), meta)
    return obj, None


def build(harness, groups, flags, extra_src=(), name=None, ldflags=()):
    srcs = [os.path.join(HERE, "harness", "mc.cpp"), os.path.join(HERE, "harness", harness)]
    srcs += [os.path.join(HERE, "harness", s) for s in extra_src]
    srcs += repo_sources(groups)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        # McBopomofo.cpp and KeyHandler.cpp are the slowest: start them first.
        srcs.sort(key=lambda s: -os.path.getsize(s))
        res = list(ex.map(lambda s: compile_one(s, flags), srcs))
    for s, (o, err) in zip(srcs, res):
        if err:
            print("cannot compile %s:\n%s" % (s, err[-6000:]))
            sys.exit(2)
    objs = sorted(o for o, _ in res)
    exe = os.path.join(BUILD, (name or harness.rsplit(".", 1)[0]) + "." +
                       hashlib.sha256(" ".join(objs + flags).encode()).hexdigest()[:10])
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["g++"] + flags + objs + ["-o", tmp] + list(ldflags) + LIBS, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("cannot link %s:\n%s" % (harness, r.stdout[-6000:]))
        sys.exit(2)
    os.replace(tmp, exe)
    return exe


def env_for(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("XDG_") or k.startswith("FCITX") or k.startswith("LC_") or k in ("LANG", "LANGUAGE", "TZ"):
            del e[k]
    e.update(LC_ALL="C.UTF-8", TZ="Asia/Taipei", HOME=scratch, TMPDIR=scratch,
             XDG_CONFIG_HOME=scratch + "/config", XDG_DATA_HOME=scratch + "/data",
             XDG_CONFIG_DIRS=scratch + "/sysconfig", XDG_DATA_DIRS=scratch + "/sysdata",
             XDG_CACHE_HOME=scratch + "/cache", XDG_RUNTIME_DIR=scratch + "/run",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=8:malloc_context_size=6",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
             MC_REPO=REPO)
    return e


def run_proc(exe, args, scratch, limit, errfile):
    os.makedirs(scratch, exist_ok=True)
    for d in ("config", "data", "sysconfig", "sysdata", "cache", "run"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    with open(errfile, "wb") as ef:
        p = subprocess.Popen([exe] + args + ["--scratch", scratch], stdout=subprocess.DEVNULL, stderr=ef,
                             stdin=subprocess.DEVNULL, env=env_for(scratch), cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = "timeout"
    return rc


def read_lines(path):
    out = []
    try:
        with open(path, "rb") as f:
            for line in f.read().decode("utf-8", "replace").split("\n"):
                if line.strip():
                    try:
                        out.append(json.loads(line, strict=False))
                    except ValueError:
                        pass
    except OSError:
        pass
    return out


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def crash_summary(text):
    for pat in (r"ERROR: AddressSanitizer:[^\n]*", r"runtime error:[^\n]*", r"Assertion [^\n]*failed[^\n]*",
                r"[^\n]*Assertion[^\n]*", r"HANG:[^\n]*", r"terminate called[^\n]*(?:\n[^\n]*what[^\n]*)?"):
        m = re.search(pat, text)
        if m:
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) [^\n]*?([\w.]+\.(?:cpp|h|cc)):(\d+)", text)
            fr = [f for f in fr if f[1] not in ("mc.cpp",)][:4]
            return re.sub(r"0x[0-9a-f]+", "0x..", re.sub(r"==\d+==", "", m.group(0))).strip() + \
                ("" if not fr else " at " + " < ".join("%s:%s" % (f[1], f[2]) for f in fr))
    return "abnormal exit: " + text[-300:]


def crash_sig(summary):
    return "crash: " + re.sub(r"[^A-Za-z:_. ]", "", summary)[:160]


def replay_once(exe, tier, choices, tmp, i):
    out = os.path.join(tmp, "replay%s.out" % i)
    err = os.path.join(tmp, "replay%s.err" % i)
    scratch = os.path.join(tmp, "replay-scratch%s" % i)
    rc = run_proc(exe, ["--tier", tier, "--replay", choices, "--out", out], scratch, 240, err)
    lines = read_lines(out)
    v = [l for l in lines if "violation" in l]
    notes = [l["note"] for l in lines if "note" in l]
    shutil.rmtree(scratch, ignore_errors=True)
    if v:
        return v[0]["sig"], v[0]["violation"], notes
    if rc == 98:
        return "diverged", tail(err), notes
    if rc not in (0, 1):
        s = "HANG: execution exceeded its time" if rc == "timeout" else crash_summary(tail(err))
        return crash_sig(s), s, notes
    return None, None, notes


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    units = []  # (exe, harness name)
    for h in spec["harness"]:
        units.append((build(h["src"], h["groups"], (SAN if h.get("san", True) else ["-O2"]) + h.get("flags", []), h.get("extra", ()), None, h.get("ldflags", ())), h))
    t_build = time.time() - t0
    if "--build-only" in args:
        return 0
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        if "--replay" in args:
            with open(args[args.index("--replay") + 1]) as f:
                r = json.load(f)
            exe = next(e for e, h in units if h["src"] == r["harness"])
            sig, msg, notes = replay_once(exe, r["tier"], r["choices"], tmp, 0)
            for n in notes:
                print("  " + n)
            print("reproduced: %s: %s" % (sig, msg) if sig else "not reproduced")
            return 1 if sig else 0
        return explore(pid, tier, seed, spec, units, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(pid, tier, seed, spec, units, tmp, t0, t_build):
    limit = spec.get("limit", {}).get(tier, 780 if tier == "quick" else 5400)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True)
    extra, violations, errors, outcomes = {}, [], [], 0
    jobs = []
    for exe, h in units:
        n = h.get("shards", NPROC)
        for s in range(n):
            jobs.append((exe, h, s, n))

    def one(job):
        exe, h, s, n = job
        base = os.path.join(tmp, "%s-%d" % (h["src"], s))
        rc = run_proc(exe, ["--tier", tier, "--shard", str(s), "--nshards", str(n), "--out", base + ".out",
                            "--cur", base + ".cur", "--hashes", base + ".hashes"],
                      base + "-scratch", limit, base + ".err")
        shutil.rmtree(base + "-scratch", ignore_errors=True)
        return rc, base, exe, h

    with cf.ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(one, jobs))
    per_unit = {}
    for rc, base, exe, h in results:
        lines = read_lines(base + ".out")
        for l in lines:
            if "violation" in l:
                violations.append((exe, h, l["sig"], l["violation"], l["choices"]))
        done = [l for l in lines if l.get("done")]
        if done:
            d = done[0]
            cov["transitions"] += d["transitions"]
            cov["traces_validated_against_impl"] += d["validated"]
            extra["executions"] = extra.get("executions", 0) + d["executions"]
            outcomes += d["outcomes"]
            if d["states_capped"]:
                cov["states_capped"] = True
            if len(cov["samples"]) < 12:
                cov["samples"] += d["samples"][:2]
            for k, v in d["extra"].items():
                extra[k] = extra.get(k, 0) + v
            try:
                a = array.array("Q")
                with open(base + ".hashes", "rb") as f:
                    a.frombytes(f.read())
                per_unit.setdefault(h["src"], set()).update(a)
            except OSError:
                pass
            continue
        cov["exhaustive"] = False
        if rc == "timeout":
            errors.append("%s: shard exceeded %d s" % (base, limit))
            continue
        if rc in (97, 98):
            errors.append("harness error %s: %s" % (rc, tail(base + ".err")[-2000:]))
            continue
        # A crash: the choice vector being executed is in the .cur file.
        a = array.array("I")
        with open(base + ".cur", "rb") as f:
            a.frombytes(f.read())
        n = a[0] if a[0] < len(a) else 0
        choices = " ".join(str(x) for x in a[1:1 + n])
        text = tail(base + ".err")
        if not n and not text.strip():
            errors.append("shard died (%s) without a trace" % rc)
            continue
        s = crash_summary(text)
        violations.append((exe, h, crash_sig(s), s, choices))
    cov["states"] = sum(len(x) for x in per_unit.values())
    cov["distinct_outcomes"] = outcomes
    cov.update(extra)
    cov["explanation"] = spec["explanation"]
    cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    cov["build_s"] = round(t_build, 1)

    # Replay before report: twice, with the same observation.
    known = load_known(pid)
    seen, reported, known_hit = set(), [], {}
    for exe, h, sig, msg, choices in violations:
        if sig in seen:
            continue
        seen.add(sig)
        if len(reported) >= 5:
            break
        r1 = replay_once(exe, tier, choices, tmp, len(seen) * 2)
        r2 = replay_once(exe, tier, choices, tmp, len(seen) * 2 + 1)
        if not r1[0] or not r2[0] or r1[0] != r2[0]:
            errors.append("violation did not replay (%s / %s / %s): %s [%s]" % (sig, r1[:2], r2[:2], msg, choices))
            continue
        if r1[0] == "diverged":
            errors.append("replay diverged: " + r1[1][-500:])
            continue
        k = [f for f in known if f["sig"] == sig and (not f.get("match") or re.search(f["match"], r1[1]))]
        if k:
            known_hit[k[0]["what"]] = True
            continue
        rp = os.path.join(HERE, "evidence", "%s-replay-%d.json" % (pid, len(reported)))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, harness=h["src"], tier=tier, sig=sig, message=r1[1], choices=choices,
                           trace=r1[2]), f, ensure_ascii=False, indent=1)
        reported.append((rp, sig, r1[1], r1[2]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(reported))
    if not cov["samples"]:
        cov["samples"] = ["(no sample)"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    for w in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for rp, sig, msg, trace in reported:
        print("%s\n%s" % (sig, msg))
        for t in trace[-40:]:
            print("   " + t)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for e in errors:
        print("ERROR: " + e)
    print("%s %s: states=%d transitions=%d executions=%s outcomes=%d exhaustive=%s build=%.0fs wall=%.0fs" % (
        pid, tier, cov["states"], cov["transitions"], extra.get("executions"), outcomes, cov["exhaustive"], t_build,
        time.time() - t0))
    if reported:
        return 1
    return 2 if errors else 0


def load_known(pid):
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except OSError:
        return []


if __name__ == "__main__":
    sys.exit(main())
