#!/usr/bin/env python3
"""Build the engine from the working tree of /repo with the harness and run checks.

  vp.py setup            build every flavour
  vp.py check PROP       run one property's check (VERIF_SEED, VERIF_TIER)
  vp.py replay FILE      run one case file
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
JOBS = min(8, os.cpu_count() or 1)

COMMON = ("-std=c++17 -g1 -pthread -fno-omit-frame-pointer -w "
          "-DSHIRAKAMI_LINUX -DINDEX_YAKUSHIMA -DYAKUSHIMA_EPOCH_TIME=40 "
          "-DPROJECT_ROOT=/repo -DKVS_MAX_PARALLEL_THREADS=32 -DYAKUSHIMA_MAX_PARALLEL_SESSIONS=300 "
          "-DPARAM_EPOCH_TIME=0 -DPARAM_RETRY_READ=0 -DPARAM_SNAPSHOT_EPOCH=25 "
          "-DPARAM_CHECKPOINT_REST_EPOCH=40 -DPARAM_PWAL_LOG_GCOMMIT_THRESHOLD=1000 "
          "-DPARAM_CPR_DIFF_SET_RESERVE_NUM=0").split()
PWAL = ("-DPWAL -DHAVE_LIMESTONE_CONFIG_CTOR_NONE=1 "
        "-DHAVE_LIMESTONE_CONFIG_SET_DATA_LOCATION_STDFSPATH=1 "
        "-DHAVE_LIMESTONE_DATASTORE_CREATE_CHANNEL_NONE=1").split()
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
INC = ["-I%s/%s" % (REPO, d) for d in ("src", "src/include", "include", "third_party")] + \
      ["-I%s/standin" % HERE, "-I%s/sched" % HERE, "-I%s/harness" % HERE]
LIBS = ["-lglog", "-lboost_filesystem", "-lboost_system", "-ltbb", "-lpthread", "-latomic", "-ldl"]

FLAVOURS = {
    "np": ([], ["-O1"]),
    "npa": ([], ["-O1"] + ASAN),
    "pw": (PWAL, ["-O1"]),
    "pwa": (PWAL, ["-O1"] + ASAN),
}
INSTR = ["-fsanitize-coverage=trace-pc", "-include", os.path.join(HERE, "sched/vp_pause.h")]


def walk(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0" + read(f) + b"\0")
    return h.hexdigest()


def repo_headers():
    return walk(REPO + "/src", (".h", ".hpp")) + walk(REPO + "/include", (".h", ".hpp"))


def build(flavour):
    """returns the path of the runner; objects are cached by content"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    defs, opt = FLAVOURS[flavour]
    own_h = walk(HERE + "/standin", (".h",)) + walk(HERE + "/sched", (".h",)) + walk(HERE + "/harness", (".h",))
    hh = tree_hash(repo_headers() + walk(HERE + "/standin", (".h",)) + [HERE + "/sched/vp_pause.h"])
    hh_own = tree_hash(own_h + walk(REPO + "/include", (".h", ".hpp")) + repo_headers())
    jobs = []
    for f in walk(REPO + "/src", (".cpp", ".cc")):
        if "/datastore/limestone/" in f and flavour[:2] != "pw":
            continue
        jobs.append((f, ["-O1"] + [x for x in opt if x != "-O1"] + INSTR, hh))
    for f in walk(HERE + "/standin/src", (".cpp",)):
        if f.endswith("ls_core.cpp") and flavour[:2] != "pw":
            continue
        jobs.append((f, opt + ["-O2"], hh_own))
    for f in walk(HERE + "/sched", (".cpp",)):
        jobs.append((f, ["-O2"], hh_own))
    for f in walk(HERE + "/harness", (".cpp",)):
        jobs.append((f, opt, hh_own))
    todo, objs = [], []
    for f, extra, h in jobs:
        args = ["g++"] + COMMON + defs + extra + INC
        key = sha(" ".join(args), f, read(f), h)
        o = "%s/obj/%s.o" % (BUILD, key)
        objs.append(o)
        if not os.path.exists(o):
            todo.append((args + ["-c", f, "-o"], o, f))
    # the first copy of a template or inline function wins: take the harness's
    # uninstrumented ones so that its bookkeeping is never preempted
    n_repo = sum(1 for j in jobs if j[0].startswith(REPO))
    objs = objs[n_repo:] + objs[:n_repo]
    binkey = sha("\n".join(objs), flavour)
    exe = "%s/bin/vph-%s-%s" % (BUILD, flavour, binkey)
    if os.path.exists(exe):
        os.utime(exe)
        return exe

    def one(t):
        args, o, f = t
        tmp = "%s.%d.tmp" % (o, os.getpid())
        p = subprocess.run(args + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 and f.endswith("/props_u.cpp"):
            # an internal class may have moved: decide by the public interface
            p = subprocess.run(args[:1] + ["-DVPH_PUBLIC_ONLY"] + args[1:] + [tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return "%s:\n%s" % (f, p.stdout[-4000:])
        os.rename(tmp, o)
        return None

    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise SystemExit("build failed: " + errs[0])
    link = ["g++", "-pthread", "-rdynamic", "-no-pie"] + (ASAN if flavour.endswith("a") else []) + objs + LIBS
    tmp = "%s.%d.tmp" % (exe, os.getpid())
    p = subprocess.run(link + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise SystemExit("link failed: " + p.stdout[-4000:])
    os.rename(tmp, exe)
    prune()
    return exe


def prune():
    """keep the cache from growing without bound"""
    for d, keep in (("bin", 24), ("obj", 3000)):
        p = os.path.join(BUILD, d)
        fs = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime)
        for f in fs[:max(0, len(fs) - keep)]:
            try:
                os.remove(f)
            except OSError:
                pass


def locked_build(flavours):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return {f: build(f) for f in flavours}


sys.path.insert(0, HERE)
from plan import PLAN, LEVELS  # noqa: E402


def child_env(scratch):
    e = dict(os.environ)
    e["VPH_SCRATCH"] = scratch
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:"
                         "detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:"
                         "quarantine_size_mb=64")
    for k in list(e):
        if k.startswith("GLOG_"):
            del e[k]
    return e


def run_workers(exe, prop, seed, count, tier, scratch):
    n = min(JOBS, max(1, count))
    ps = []
    for w in range(n):
        sc = "%s/w%d" % (scratch, w)
        os.makedirs(sc, exist_ok=True)
        out = "%s/out%d.json" % (scratch, w)
        if os.path.exists(out):
            os.remove(out)
        ps.append((subprocess.Popen([exe, "run", prop, str(seed), str(w), str(n), str(count), tier, out],
                                    env=child_env(sc), stdout=subprocess.DEVNULL,
                                    stderr=open(sc + "/stderr", "w")), out, sc))
    res = []
    for p, out, sc in ps:
        rc = p.wait()
        if rc != 0 or not os.path.exists(out):
            raise SystemExit("runner failed (%s): %s" % (rc, open(sc + "/stderr").read()[-2000:]))
        res.append(json.load(open(out)))
    return res


def exec_case(exe, path, scratch):
    sc = scratch + "/x"
    os.makedirs(sc, exist_ok=True)
    p = subprocess.run([exe, "exec", path], env=child_env(sc), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def load_known(prop):
    """Lines `KNOWN property=<id> class=<name> replay=<file> <text>`."""
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) class=(\S+) replay=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), HERE + "/" + m.group(3), m.group(4)))
    return out


def report_known(prop, classes, scratch):
    for name, replay, text in load_known(prop):
        fl = flavour_of(open(replay).read())
        os.environ["VPH_STRICT"] = "1"
        try:
            bad = exec_case(locked_build([fl])[fl], replay, scratch)[0] == 1
        finally:
            del os.environ["VPH_STRICT"]
        if bad or classes.get("known:" + name, 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))


def flavour_of(text):
    m = re.search(r"^# flavour (\S+)", text, re.M)
    return m.group(1) if m else "np"


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    runs = PLAN[prop]
    exes = locked_build([r[0] for r in runs])
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    try:
        return check_in(prop, tier, seed, runs, exes, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, seed, runs, exes, scratch, t0):
    evals = nontriv = 0
    hashes, samples, classes, violations = set(), [], {}, []
    rule = ""
    for fl, q, th in runs:
        exe = exes[fl]
        rule = subprocess.run([exe, "info", prop], env=child_env(scratch), stdout=subprocess.PIPE,
                              text=True).stdout.strip()
        count = q if tier == "quick" else th
        res = run_workers(exe, prop, seed, count, tier, scratch)
        for r in res:
            evals += r["evals"]
            nontriv += r["nontrivial"]
            hashes.update((fl, h) for h in r["hashes"])
            for k, v in r["classes"].items():
                classes[k] = classes.get(k, 0) + v
        for r in res[:3]:
            samples += r["samples"][:1]
        bad = sorted((r["fail_idx"], i) for i, r in enumerate(res) if r["fail_idx"] >= 0)
        if bad:
            r = res[bad[0][1]]
            violations.append((fl, exe, r["fail_idx"], r["case"], r["why"]))
            break
    rc = 0
    vtext = []
    for fl, exe, idx, case, why in violations:
        os.makedirs(HERE + "/replays", exist_ok=True)
        base = "%s/replays/%s-%s-seed%d-case%d" % (HERE, prop, fl, seed, idx)
        raw = base + ".raw.case"
        open(raw, "w").write(case)
        ok = sum(1 for _ in range(3) if exec_case(exe, raw, scratch)[0] == 1)
        if ok < 3:
            print("note: case %d of %s failed once but only %d of 3 replays did" % (idx, prop, ok))
            if ok == 0:
                raise SystemExit("unstable verdict, case kept in %s\n%s" % (raw, why))
        small = base + ".case"
        sc = scratch + "/shrink"
        os.makedirs(sc, exist_ok=True)
        p = subprocess.run([exe, "shrink", raw, small, "500"], env=child_env(sc), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace")
        if p.returncode != 0 or exec_case(exe, small, scratch)[0] != 1:
            shutil.copy(raw, small)
        else:
            why = p.stdout
        with open(small, "a") as f:
            f.write("# flavour %s\n" % fl)
            for l in why.splitlines():
                f.write("# " + l + "\n")
        print("case %d (%s, seed %d): %s" % (idx, fl, seed, why.strip()[:6000]))
        print("VIOLATION property=%s replay=%s" % (prop, small))
        vtext.append({"replay": small, "what": why.strip()[:2000]})
        rc = 1
    report_known(prop, classes, scratch)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"),
        "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule,
                     "samples": samples[:3], "nontrivial_total": nontriv, "classes": classes,
                     "flavours": [r[0] for r in runs]},
        "assumptions": ["index and log store are the stand-ins of /verif/standin",
                        "one thread runs at a time (sequentially consistent interleavings)"],
        "wall_s": round(time.time() - t0, 3), "violations": len(vtext), "violation_details": vtext,
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s tier=%s seed=%d: %d cases, %d non-trivial (%d distinct), %.1f s %s" %
          (prop, tier, seed, evals, nontriv, len(hashes), time.time() - t0,
           json.dumps(classes, sort_keys=True)))
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        locked_build(a[1:] or sorted({r[0] for rs in PLAN.values() for r in rs}))
        return 0
    if a[:1] == ["build"]:
        print(locked_build([a[1]])[a[1]])
        return 0
    if a[:1] == ["check"]:
        return check(a[1])
    if a[:1] == ["replay"]:
        fl = flavour_of(open(a[1]).read())
        exe = locked_build([fl])[fl]
        with tempfile.TemporaryDirectory(prefix="vp-replay-") as d:
            os.environ["VPH_SHOW"] = "1"
            rc, out = exec_case(exe, a[1], d)
            print(out)
            return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
