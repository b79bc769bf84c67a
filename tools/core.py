"""Common parts of all checks: scratch directories, builds, known findings, evidence."""
import json, os, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
UCD = os.path.join(VERIF, "ucd")
EVID = os.path.join(VERIF, "evidence")
JOBS = min(8, os.cpu_count() or 1)


class Broken(Exception):
    """the check cannot do its work"""


class BuildFailed(Broken):
    pass


def sh(cmd, cwd=None, env=None, timeout=800, check=True, what=None):
    e = dict(os.environ)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Broken("%s did not end within %d s" % (what or cmd[0], timeout))
    out = out.decode("utf-8", "replace")
    err = err.decode("utf-8", "replace")
    if check and p.returncode != 0:
        raise BuildFailed("%s ended with %d\n%s%s" % (what or " ".join(cmd), p.returncode, out[-1500:], err[-3000:]))
    return p.returncode, out, err


def sh_all(cmds, cwd=None, timeout=800):
    """run commands in parallel, all must succeed"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(sh, c, cwd, None, timeout) for c in cmds]:
            f.result()


# ---------------------------------------------------------------- building the library

def copy_tree(dst, ucd=None):
    """a copy of what /repo's Makefile needs to build the library, without build products"""
    os.makedirs(dst)
    for d in ("src", "gen", "data", "man"):
        s = os.path.join(REPO, d)
        if not os.path.isdir(s):
            continue
        keep_h = set(git_tracked(d))

        def ignore(path, names, keep_h=keep_h):
            r = set()
            for n in names:
                p = os.path.join(path, n)
                rel = os.path.relpath(p, REPO)
                if os.path.isdir(p):
                    continue
                if n.endswith((".o", ".a", ".so")) or os.access(p, os.X_OK) and "." not in n:
                    r.add(n)
                elif keep_h and n.endswith(".h") and rel not in keep_h:
                    r.add(n)
            return r
        shutil.copytree(s, os.path.join(dst, d), ignore=ignore)
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not f.endswith((".o", ".a")) and ".so" not in f:
            shutil.copy2(p, dst)
    if ucd:
        for f in os.listdir(ucd):
            if os.path.exists(os.path.join(dst, "data", f)):
                shutil.copyfile(os.path.join(ucd, f), os.path.join(dst, "data", f))
    # a header that only exists as a build product must be made here
    return dst


def git_tracked(d):
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", d], capture_output=True, text=True)
    return [l for l in r.stdout.split("\n") if l] if r.returncode == 0 else []


def build_lib(dst, cc="gcc", cflags="-std=c99 -O2", build_cc="gcc", build_cflags="-std=c99 -O2", target="libgrapheme.a",
              ucd=None, gen_from=None, extra=()):
    """build the library with /repo's Makefile; gen_from: take the generated tables from another build"""
    copy_tree(dst, ucd)
    if gen_from:
        for f in os.listdir(os.path.join(gen_from, "gen")):
            if f.endswith(".h") and not os.path.exists(os.path.join(dst, "gen", f)):
                shutil.copy2(os.path.join(gen_from, "gen", f), os.path.join(dst, "gen", f))
                # newer than every prerequisite
                os.utime(os.path.join(dst, "gen", f), (time.time() + 1, time.time() + 1))
        # tables are up to date only if make sees no generator to rebuild
        for f in os.listdir(os.path.join(gen_from, "gen")):
            s = os.path.join(gen_from, "gen", f)
            d = os.path.join(dst, "gen", f)
            if os.path.isfile(s) and not os.path.exists(d):
                shutil.copy2(s, d)
        now = time.time()
        for f in os.listdir(os.path.join(dst, "gen")):
            p = os.path.join(dst, "gen", f)
            os.utime(p, (now, now) if f.endswith(".h") and not f in ("util.h", "types.h") else
                     (now - 10, now - 10) if "." not in f else (now - 20, now - 20) if f.endswith(".o") else (now - 100, now - 100))
        for r, _, fs in os.walk(dst):
            for f in fs:
                p = os.path.join(r, f)
                if os.path.basename(r) != "gen":
                    os.utime(p, (now - 100, now - 100))
    sh(["make", "-j%d" % JOBS, target, "CC=" + cc, "CFLAGS=" + cflags, "BUILD_CC=" + build_cc, "BUILD_CFLAGS=" + build_cflags]
       + list(extra), cwd=dst, what="building the library (%s %s)" % (cc, cflags))
    return dst


MON_SRC = ["ucd", "oracle_seg", "oracle_bidi", "oracle_case", "mon", "checks_seg", "checks_utf8", "checks_case", "checks_bidi", "checks_cp"]


def build_mon(scratch, libdirs):
    """compile the monitors once, link them with each library; returns the list of binaries"""
    d = os.path.join(scratch, "mon")
    os.makedirs(d, exist_ok=True)
    srcs = [s for s in MON_SRC if os.path.exists(os.path.join(SRC, s + ".cpp"))]
    sh_all([["g++", "-std=c++17", "-O2", "-I" + libdirs[0], "-c", os.path.join(SRC, s + ".cpp"), "-o", os.path.join(d, s + ".o")] for s in srcs])
    r = []
    for l in libdirs:
        out = os.path.join(l, "mon")
        sh(["g++"] + [os.path.join(d, s + ".o") for s in srcs] + [os.path.join(l, "libgrapheme.a"), "-o", out])
        r.append(out)
    return r


# ---------------------------------------------------------------- results

class Result:
    def __init__(self):
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.violations = []  # (key, replay file, message)
        self.assumptions = []
        self.notes = []

    def violation(self, key, path, msg):
        self.violations.append((key, path, msg))


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = None
        self.res = Result()
        self._n = 0

    def dir(self, name=None):
        self._n += 1
        return os.path.join(self.scratch, name or "d%d" % self._n)

    def replay_text(self, name, text):
        p = self.dir("replay-%s-%s" % (self.prop, name))
        with open(p, "w") as f:
            f.write(text)
        return p


def run_mon(run, binary, ucd, prop=None, tier=None, merge=True, workers=JOBS, seed=None):
    """run the monitor for one property; merges statistics and violations into run.res"""
    out = run.dir()
    os.makedirs(out)
    rc, so, se = sh([binary, "run", ucd, prop or run.prop, str(run.seed if seed is None else seed), tier or run.tier, str(workers), out],
                    timeout=5400 if run.thorough else 840, check=False, what="monitor")
    if rc not in (0, 1):
        raise Broken("the monitor ended with %d: %s" % (rc, (so + se)[-2000:]))
    st = json.load(open(os.path.join(out, "stats.json")))
    viol = []
    vt = os.path.join(out, "violations.tsv")
    if os.path.exists(vt):
        for l in open(vt, encoding="utf-8", errors="replace"):
            f = l.rstrip("\n").split("\t")
            if len(f) >= 3:
                viol.append((f[0], f[1], f[2]))
    if rc == 1 and not viol:
        raise Broken("the monitor reported violations but wrote none")
    if st["missing_rules"] and not viol:
        raise Broken("the workload did not reach what it must reach: " + st["missing_rules"])
    if merge:
        c = run.res.coverage
        c["evaluations"] += st["evaluations"]
        c["distinct_nontrivial"] += st["distinct_nontrivial"]
        c["rule"] = c["rule"] or st["rule"]
        c["samples"] = (c["samples"] + st["samples"])[:6]
        if st.get("distinct_not_counted"):
            c["distinct_table_full_at"] = st["distinct_not_counted"]
        for k in ("rule_hits", "counters"):
            if st.get(k):
                d = c.setdefault({"rule_hits": "oracle_rules_decisive", "counters": "counters"}[k], {})
                for n, v in st[k].items():
                    d[n] = max(d.get(n, 0), v) if n.startswith(("longest", "slowest")) else d.get(n, 0) + v
        run.res.violations += viol
    return st, viol


def known_findings():
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            f = l.split()
            if len(f) >= 3 and f[0] == "finding:" and f[1].startswith("property=") and f[2].startswith("key="):
                r[(f[1][9:], f[2][4:])] = " ".join(f[3:])
    return r


def finish(run):
    res = run.res
    known = known_findings()
    seen, fresh = {}, {}
    for key, path, msg in res.violations:
        d = seen if (run.prop, key) in known else fresh
        d.setdefault(key, []).append((path, msg))
    os.makedirs(EVID, exist_ok=True)
    for key in sorted(seen):
        print("KNOWN-FINDING: property=%s %s (%s)" % (run.prop, known[(run.prop, key)], seen[key][0][1][:200]))
    rdir = os.path.join(EVID, "replay")
    for key in sorted(fresh):
        os.makedirs(rdir, exist_ok=True)
        # the shortest example is the most readable one
        path, msg = min(fresh[key], key=lambda e: (len(e[1]), e[1]))
        dst = os.path.join(rdir, "%s-%s%s" % (run.prop, key, ".case" if path.endswith(".case") else ".txt"))
        shutil.copyfile(path, dst)
        print("VIOLATION property=%s replay=%s" % (run.prop, dst))
        print("  %s: %s" % (key, msg[:600]))
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": "exploration", "coverage": res.coverage,
          "assumptions": res.assumptions, "wall_s": round(time.time() - run.t0, 2), "violations": sum(len(v) for v in fresh.values())}
    if seen:
        ev["coverage"]["known_findings_seen"] = sorted(seen)
    tmp = os.path.join(EVID, ".%s.json.tmp" % run.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, run.prop + ".json"))
    print("%s %s: %s, %d evaluations, %d distinct and non-trivial, %.1f s" %
          (run.prop, run.tier, "VIOLATED" if fresh else "held", res.coverage["evaluations"], res.coverage["distinct_nontrivial"], ev["wall_s"]))
    return 1 if fresh else 0


def main(argv, checks):
    args = argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if not args:
        print(__doc__, file=sys.stderr)
        return 2
    if args[0] == "replay":
        scratch = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            import work
            rc = work.replay(args[1], scratch)
            if rc is not None:
                return rc
            u = None
            for l in open(args[1], errors="replace"):
                f = l.split()
                if l.startswith("# variation:") and f[2] != "base":
                    import ucdmut
                    u = os.path.join(scratch, "ucd")
                    ucdmut.make(UCD, u, f[2], int(f[3]))
            lib = build_lib(os.path.join(scratch, "lib"), ucd=u)
            mon = build_mon(scratch, [lib])[0]
            rc, o, e = sh([mon, "replay", u or UCD, args[1]], check=False)
            print(o + e)
            return rc
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = args[0]
    if prop not in checks:
        print("no such property: " + prop, file=sys.stderr)
        return 2
    run = Run(prop, tier, seed)
    run.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        checks[prop](run)
        return finish(run)
    except Broken as e:
        print("%s: the check could not be carried out: %s" % (prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
