"""Checks that run the plain C workload (src/work.c) under sanitizers and other instruments."""
import concurrent.futures as cf
import ctypes, filecmp, hashlib, re, resource, shlex, struct
from core import *

FN = ["decode_utf8", "encode_utf8", "next_character_break", "next_word_break", "next_sentence_break",
      "next_line_break", "next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
      "is_character_break", "to_uppercase", "to_lowercase", "to_titlecase", "to_uppercase_utf8", "to_lowercase_utf8", "to_titlecase_utf8",
      "is_uppercase", "is_lowercase", "is_titlecase", "is_uppercase_utf8", "is_lowercase_utf8", "is_titlecase_utf8",
      "bidirectional_preprocess_paragraph", "bidirectional_get_line_embedding_levels", "bidirectional_reorder_line"]
FAMILIES = 48
W = os.path.join(SRC, "work.c")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:quarantine_size_mb=16:detect_invalid_pointer_pairs=2:exitcode=77:allocator_may_return_null=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77", "MSAN_OPTIONS": "exitcode=77", "TSAN_OPTIONS": "exitcode=77:halt_on_error=1", "LD_BIND_NOW": "1"}
REPORT = re.compile(r"(AddressSanitizer|MemorySanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer|LeakSanitizer|runtime error:)")


def read_state(path):
    b = open(path, "rb").read()
    seed, idx, ln, f, fam, done, bad = struct.unpack_from("<QQQiiii", b)
    what = b[40:240].split(b"\0")[0].decode("utf-8", "replace")
    return {"seed": seed, "idx": idx, "len": ln, "f": FN[f] if 0 <= f < len(FN) else "?", "fam": fam, "done": done, "bad": bad, "what": what}


def case_text(drv, st, light=""):
    if st["fam"]:
        rc, o, _ = sh([drv, "showfam", str(st["idx"]), str(st["len"])], check=False)
        return "# case: fam %d %d 1 OUT %d %s\n" % (st["idx"], st["idx"] + 1, st["len"], light) + o
    rc, o, _ = sh([drv, "show", str(st["seed"]), str(st["idx"])], check=False)
    return "# case: run %d %d %d 1 OUT %s\n" % (st["seed"], st["idx"], st["idx"] + 1, light) + o


def first_report(err):
    for l in err.split("\n"):
        if REPORT.search(l):
            l = re.sub(r"==\d+==|0x[0-9a-f]{6,}|/tmp/verif-[^ :]*/", "", l)
            return l.strip()
    return ""


def report_key(name, f, err):
    m = re.search(r"(?:Sanitizer: |runtime error: )([a-zA-Z-]+)", err)
    return "%s-%s" % (f, (m.group(1) if m else "crash").lower())


def jobs_for(seed, n, light=""):
    return [["run", str(seed), str(w), str(n), str(JOBS)] + ["OUT"] + ([light] if light else []) for w in range(JOBS)]


def fam_jobs(to, ln, light="l"):
    return [["fam", str(w), str(to), str(JOBS), "OUT", str(ln), light] for w in range(JOBS)]


def run_drv(run, drv, jobs, env=None, timeout=None):
    """runs the driver once per job; yields (job, rc, out, err, state, outfile)"""
    timeout = timeout or (3600 if run.thorough else 500)

    def one(job):
        out = run.dir()
        rc, o, e = sh([drv] + [out if a == "OUT" else a for a in job], env=env or SAN_ENV, timeout=timeout, check=False, what="the driver")
        return job, rc, o, e, read_state(out + ".state"), out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(one, j) for j in jobs]
        return [f.result() for f in fs]


def add_calls(run, out):
    c = run.res.coverage
    d = c.setdefault("calls", {})
    for l in out.split("\n"):
        f = l.split()
        if len(f) == 3 and f[0] == "calls":
            d[f[1]] = d.get(f[1], 0) + int(f[2])


def total_calls(run):
    c = run.res.coverage
    d = c.get("calls", {})
    for f in FN:
        if not d.get(f):
            raise Broken("the workload never called " + f)
    c["evaluations"] = sum(d.values())


# ---------------------------------------------------------------- G01

G01_BUILDS = {
    "clang-asan-ubsan": ("clang", "-O1 -g -fsanitize=address,undefined,local-bounds -fno-sanitize-recover=all", ""),
    "gcc-asan-ubsan": ("gcc", "-O0 -g -fsanitize=address,undefined,bounds-strict,pointer-compare,pointer-subtract -fno-sanitize-recover=all", ""),
    "clang-msan": ("clang", "-O1 -g -fsanitize=memory -fsanitize-memory-track-origins", ""),
    "coverage": ("clang", "-O1", "-fsanitize-coverage=inline-8bit-counters"),
}


def build_drv(run, name, cc, fl, libonly="", target="libgrapheme.a"):
    lib = build_lib(run.dir("lib-" + name), cc=cc, cflags="-std=c99 -fno-omit-frame-pointer %s %s" % (fl, libonly), target=target)
    drv = run.dir("drv-" + name)
    sh([cc, "-std=gnu11", "-DW_MAXCP=70000"] + fl.split() + ["-I" + lib, os.path.join(SRC, "drv.c"), W, os.path.join(lib, "libgrapheme.a"), "-o", drv])
    return lib, drv


def g01(run):
    c = run.res.coverage
    with cf.ThreadPoolExecutor(4) as ex:
        fz = ex.submit(build_fuzz, run)
        fs = {n: ex.submit(build_drv, run, n, *b) for n, b in G01_BUILDS.items()}
        drv = {n: f.result()[1] for n, f in fs.items()}
        fuzz = fz.result()
    mul = 25 if run.thorough else 1
    plan = []
    for k, (n, cases) in enumerate((("clang-asan-ubsan", 40000), ("gcc-asan-ubsan", 9000), ("clang-msan", 24000), ("coverage", 20000))):
        plan.append((n, jobs_for(run.seed * 10 + k, cases * mul)))
        for ln in ((257, 1100) if n == "clang-asan-ubsan" else (300,)) if not run.thorough else (64, 257, 1100, 4000):
            plan.append((n, fam_jobs(FAMILIES + (60 if not run.thorough else 600), ln)))
        # across 16-bit lengths; without what takes quadratic time
        if n == "clang-asan-ubsan" or run.thorough:
            plan.append((n, fam_jobs(FAMILIES, 66000)))
    edges = None
    cases = {}
    for n, jobs in plan:
        t = time.time()
        for job, rc, o, e, st, out in run_drv(run, drv[n], jobs):
            cases[n] = cases.get(n, 0) + (os.path.getsize(out) // (4 * len(FN)))
            os.unlink(out)
            if rc == 0 and st["done"]:
                if n != "coverage":
                    add_calls(run, o)
                m = re.search(r"^edges ([01]+)", o, re.M)
                if m:
                    b = int(m.group(1), 2)
                    edges = (edges or 0) | b
                    nedges = len(m.group(1))
                continue
            if st["bad"]:
                # a wrong return value is not this property's business
                c.setdefault("other_observations", []).append("%s: %s" % (st["f"], st["what"]))
                continue
            txt = "# build: %s\n" % n + case_text(drv[n], st, job[-1] if job[-1] == "l" else "") + "\n" + e
            rep = first_report(e) or "the process ended with %d" % rc
            run.res.violation(report_key(n, st["f"], e), run.replay_text("%s-%d.txt" % (st["f"], st["idx"]), txt), "grapheme_%s under %s: %s" % (st["f"], n, rep))
        c.setdefault("seconds", {})[n] = round(c.get("seconds", {}).get(n, 0) + time.time() - t, 1)
        if run.res.violations:
            break
    if not run.res.violations:
        fuzz_run(run, fuzz, 12 if not run.thorough else 900)
        total_calls(run)
    c["distinct_nontrivial"] = sum(cases.values())
    c["cases"] = cases
    c["rule"] = "one case is one text with all functions, modes and capacities; evaluations counts library calls under instrumentation"
    if edges is not None:
        c["library_edges_covered"] = "%d of %d" % (bin(edges).count("1"), nedges)
        c["samples"] = ["%d of %d edges of the library are executed by the first part of this workload (counted in a build of its own)" % (bin(edges).count("1"), nedges)]
    run.res.assumptions = ["sanitizers detect what leads to a report in the executed instruction sequence; gcc -O0 and clang -O1 builds are both used to limit what optimisers hide",
                           "state words of the bidirectional functions come from the preprocessing function; invented ones are not legal input"]


def build_fuzz(run):
    fl = "-O1 -g -fsanitize=address,undefined,local-bounds -fno-sanitize-recover=all"
    lib = build_lib(run.dir("lib-fuzz"), cc="clang", cflags="-std=c99 -fno-omit-frame-pointer %s -fsanitize=fuzzer-no-link" % fl)
    out = run.dir("fuzz")
    sh(["clang", "-std=gnu11"] + fl.split() + ["-fsanitize=fuzzer", "-I" + lib, os.path.join(SRC, "fuzz.c"), W, os.path.join(lib, "libgrapheme.a"), "-o", out])
    return out


def fuzz_run(run, fuzz, seconds):
    def one(w):
        d = run.dir("corpus%d" % w)
        os.makedirs(d)
        r = sh([fuzz, "-seed=%d" % (run.seed * 100 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (64 if w % 2 else 200), "-timeout=300", "-rss_limit_mb=2500",
                "-len_control=20", "-print_final_stats=1", "-artifact_prefix=" + d + "-", d], env=SAN_ENV, timeout=seconds + 400, check=False)
        return w, r, d
    c = run.res.coverage
    execs = units = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for w, (rc, o, e), d in ex.map(one, range(JOBS)):
            m = re.search(r"number_of_executed_units: (\d+)", e)
            execs += int(m.group(1)) if m else 0
            units += len(os.listdir(d))
            if rc != 0 and REPORT.search(e) and not re.search(r"libFuzzer: (timeout|out-of-memory)", e):
                art = [f for f in os.listdir(run.scratch) if f.startswith("corpus%d-crash" % w)]
                data = open(os.path.join(run.scratch, art[0]), "rb").read().hex() if art else ""
                fr = re.search(r"in (grapheme_\w+)", e)
                f = fr.group(1)[9:] if fr else "fuzz"
                run.res.violation(report_key("fuzz", f, e), run.replay_text("fuzz-%d.txt" % w, "# build: fuzz\n# fuzz: %s\n%s" % (data, e)),
                                  "grapheme_%s under coverage-guided input: %s" % (f, first_report(e)))
    c["fuzz_executions"] = execs
    c["fuzz_corpus_units"] = units
    if execs == 0 and not run.res.violations:
        raise Broken("the coverage-guided workload did not run")


def replay(path, scratch):
    """re-runs a case of one of the checks of this file"""
    run = Run("replay", "quick", 1)
    run.scratch = scratch
    h = {}
    for l in open(path, errors="replace"):
        m = re.match(r"# (build|case|fuzz): (.*)", l)
        if m:
            h.setdefault(m.group(1), m.group(2).strip())
    if "build" not in h:
        return None
    if h["build"] == "fuzz":
        f = build_fuzz(run)
        p = run.dir("in")
        open(p, "wb").write(bytes.fromhex(h["fuzz"]))
        rc, o, e = sh([f, p], env=SAN_ENV, check=False)
    elif h["build"] in G01_BUILDS:
        _, d = build_drv(run, h["build"], *G01_BUILDS[h["build"]])
        rc, o, e = sh([d] + [run.dir("out") if a == "OUT" else a for a in h["case"].split()], env=SAN_ENV, check=False)
    elif h["build"] in ("pure", "race"):
        d = {"pure": build_pure, "race": build_race}[h["build"]](run)
        out = run.dir("out")
        rc, o, e = sh([d] + [out if a == "OUT" else a for a in h["case"].split()], env=SAN_ENV, check=False)
        e += read_state(out + ".state")["what"]
    elif h["build"].startswith("config "):
        res = []
        for n in (DEFAULT, h["build"].split()[1]):
            _, d = build_config(run, n)
            out = run.dir()
            if d.endswith("drv32"):
                j = h.get("case", "run 1 0 0").split()
                res.append((0, open(run_bare32(run, d, [j])[0][5], "rb").read()))
                continue
            r = sh([d] + [out if a == "OUT" else a for a in h["case"].split()], check=False) if "case" in h else (0, 0, 0)
            res.append((r[0], open(out, "rb").read() if os.path.exists(out) else b""))
        rc = int(res[0] != res[1])
        e = "the results %s" % ("differ" if rc else "agree")
    elif h["build"] == "cost":
        rc, o, e = sh([build_cost(run)] + h["case"].split(), check=False, timeout=1200)
        rc = 0
        for l in o.split("\n"):
            f = l.split()
            if len(f) == 5 and (f[4] == "-1" or f[2] in set(COST_LINEAR) | set(COST_SQUARE) | set(COST_CONST) and int(f[3]) > cost_bound(f[2], int(f[1]))):
                rc = 1
                e += l + "  (bound: %s)\n" % (cost_bound(f[2], int(f[1])) if f[4] != "-1" else "not met")
    elif h["build"] == "walk":
        rc, o, e = sh([build_walk(run, build_lib(run.dir("lib"))), h["case"]], check=False, timeout=3600)
        e += o
    elif h["build"] == "bare":
        b, und, e = build_bare(run)
        rc = 1
        if b and "case" in h:
            rc, e = run_bare(run, b, h["case"].split())
    else:
        return None
    print(e)
    return 1 if rc else 0


# ---------------------------------------------------------------- texts of more than 2^32 elements

SEGS = ("character_break", "word_break", "sentence_break", "line_break")
# (in the quick check, in the thorough one in addition)
WALKS = {
    "G05": ((), tuple(s + "_utf8" for s in SEGS)),
    "G06": ((), ("character_break",)), "G07": ((), ("word_break",)), "G08": ((), ("sentence_break",)), "G09": ((), ("line_break",)),
    "G10": (("character_break_utf8",), tuple(s + "_utf8" for s in SEGS[1:])),
    "G13": (("to_lowercase", "to_uppercase"), ("to_titlecase", "to_lowercase_cp", "to_uppercase_cp", "to_titlecase_cp")),
    "G14": (("early_lowercase", "early_uppercase", "early_titlecase", "is_lowercase", "is_uppercase"), ("is_titlecase",)),
    "G17": (("early_preprocess", "reorder", "levels"), ("preprocess",)),
}


def build_walk(run, lib):
    w = run.dir("walk")
    sh(["gcc", "-O2", "-I" + lib, os.path.join(SRC, "walk.c"), os.path.join(lib, "libgrapheme.a"), "-o", w])
    return w


def walk(run, lib):
    """one call each over a text beyond 2^32 elements; returns a function that waits for the results"""
    q, t = WALKS.get(run.prop, ((), ()))
    names = q + t if run.thorough else q
    if not names:
        return lambda give_up=False: None
    w = build_walk(run, lib)
    end = time.time() + (5400 if run.thorough else 750)
    cpu = 2400 if run.thorough else 270  # about ten times what they take
    ps = [(n, subprocess.Popen([w, n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5)))) for n in names]

    def wait(give_up=False):
        done, no = [], []
        for n, p in ps:
            if give_up:
                p.kill()
                p.communicate()
                continue
            try:
                # what has been found elsewhere is enough
                o = p.communicate(timeout=max(1, end - time.time()) if not run.res.violations else 1)[0].decode()
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                if not run.res.violations:
                    raise Broken("one call over more than 2^32 elements did not end in time: " + n)
                continue
            if p.returncode == 2:
                raise Broken("walk does not know " + n)
            if p.returncode in (0, 3):
                (no if p.returncode else done).append(n)
            else:
                run.res.violation("beyond-32-bits-" + n, run.replay_text("walk-" + n, "# build: walk\n# case: %s\n%s" % (n, o)),
                                  "a text of more than 2^32 elements: " + ("ended with signal %d%s" % (-p.returncode, " (no end within %d s)" % cpu if p.returncode == -signal.SIGXCPU else "") if p.returncode < 0 else o.replace("\n", "; ")))
        run.res.coverage["calls_over_more_than_2^32_elements"] = done
        if no:
            run.res.coverage["could_not_be_mapped_here"] = no
    return wait


# ---------------------------------------------------------------- G18

def build_so(run, name, cc="gcc", cflags="-std=c99 -Os"):
    lib = build_lib(run.dir("so-" + name), cc=cc, cflags=cflags, target="libgrapheme.so", extra=["SONAME=libgrapheme.so"])
    # whatever name the library gives itself must be found at run time
    _, o, _ = sh(["readelf", "-d", os.path.join(lib, "libgrapheme.so")])
    m = re.search(r"SONAME.*\[(.*)\]", o)
    if m and m.group(1) != "libgrapheme.so":
        os.symlink("libgrapheme.so", os.path.join(lib, m.group(1)))
    return lib


def build_pure(run):
    so = build_so(run, "pure")
    pure = run.dir("pure")
    sh(["gcc", "-std=gnu11", "-O2", "-I" + so, os.path.join(SRC, "pure.c"), W, os.path.join(so, "libgrapheme.so"), "-Wl,-rpath," + so, "-Wl,-z,now", "-o", pure])
    return pure


def build_race(run):
    fl = "-O1 -g -fsanitize=thread"
    lib = build_lib(run.dir("lib-tsan"), cc="clang", cflags="-std=c99 " + fl)
    race = run.dir("race")
    sh(["clang", "-std=gnu11"] + fl.split() + ["-I" + lib, os.path.join(SRC, "race.c"), W, os.path.join(lib, "libgrapheme.a"), "-lpthread", "-o", race])
    return race


def g18_jobs(run):
    n = 1600 if not run.thorough else 12000
    m = 400 if not run.thorough else 2500
    P = [("pure", [str(run.seed), str(w * n), str(n), str(n // 2), "OUT"]) for w in range(JOBS)]
    R = [("race", [str(run.seed + 50), str(w * m), str(m), "6", "OUT"]) for w in range(4)]
    return P + R


def g18(run):
    c = run.res.coverage
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build_pure, run), ex.submit(build_race, run)
        drv = {"pure": a.result(), "race": b.result()}
    evals = {}
    for kind in ("pure", "race"):
        jobs = [j for k, j in g18_jobs(run) if k == kind]
        for job, rc, o, e, st, out in run_drv(run, drv[kind], jobs):
            if rc == 0 and st["done"]:
                add_calls(run, o)
                evals[kind] = evals.get(kind, 0) + int(re.search(r"evals (\d+)", o).group(1))
                m = re.search(r"locked (\d+)", o)
                if m:
                    c["library_bytes_made_read_only"] = int(m.group(1))
                continue
            txt = "# build: %s\n# case: %s\n" % (kind, " ".join(job)) + o + e + "\ncase %d: %s\n" % (st["idx"], st["what"])
            if rc == 3 and st["bad"]:
                key = {"a w": "write", "mem": "write", "the": "result", "an ": "access", "err": "errno", "a f": "signal"}.get(st["what"][:3], "other")
                run.res.violation("%s-%s" % (st["f"], key), run.replay_text("%s-%d.txt" % (kind, st["idx"]), txt),
                                  "grapheme_%s, case %d of seed %d: %s" % (st["f"], st["idx"], st["seed"], st["what"]))
            elif REPORT.search(e):
                m = re.search(r"grapheme_\w+", e)
                run.res.violation("race-" + (m.group(0) if m else "x"), run.replay_text("%s-%s.txt" % (kind, job[1]), txt),
                                  "threads: " + first_report(e))
            else:
                raise Broken("%s ended with %d: %s" % (kind, rc, (o + e)[-1500:]))
        if run.res.violations:
            break
    if not run.res.violations:
        total_calls(run)
    n = sum(int(j[2]) for _, j in g18_jobs(run))
    c["distinct_nontrivial"] = n
    c["function_runs"] = evals
    c["rule"] = ("one case is one text with all functions; its results in a fresh process, in three orders, with other output and stack contents, in another "
                 "locale, and in six threads at once are compared")
    c["samples"] = ["%d bytes of the library's writable segments are read-only while it runs" % c.get("library_bytes_made_read_only", 0)]
    run.res.assumptions = ["ThreadSanitizer sees the interleavings that happened; hidden state is also excluded by the write protection, which does not depend on the schedule"]


# ---------------------------------------------------------------- G21

# what a freestanding compiler may call without being asked, and what start files bring along
FREE = re.compile(r"^(mem(cpy|move|set|cmp)|__stack_chk_fail|__stack_chk_guard|__cxa_finalize|__gmon_start__|_ITM_\w+|_GLOBAL_OFFSET_TABLE_|__tls_get_addr)$")


def build_bare(run):
    """returns (binary, violation text)"""
    lib = build_lib(run.dir("lib-bare"), cflags="-std=c99 -Os -ffreestanding -fno-stack-protector -fcf-protection=none -fno-pie")
    bare = run.dir("bare")
    o = [run.dir("bare.o"), run.dir("work.o")]
    fl = ["gcc", "-std=gnu11", "-O1", "-DW_MAXCP=70000", "-ffreestanding", "-fno-stack-protector", "-fcf-protection=none", "-fno-pie", "-I" + lib, "-c"]
    sh(fl + [os.path.join(SRC, "bare.c"), "-o", o[0]])
    sh(fl + [W, "-o", o[1]])
    rc, so, se = sh(["gcc", "-no-pie", "-nostdlib", "-static"] + o + [os.path.join(lib, "libgrapheme.a"), "-lgcc", "-o", bare], check=False)
    if rc:
        und = sorted(set(re.findall(r"undefined reference to [`']([^'`]+)'", se)))
        if not und:
            raise Broken("linking without a C library failed: " + se[-1500:])
        return None, und, se
    return bare, [], ""


def run_bare(run, bare, args):
    rc, o, e = sh(["sh", "-c", "exec \"$@\" 9>&1", "sh", bare] + args, check=False, timeout=3600 if run.thorough else 500)
    return rc, o


def g21(run):
    c = run.res.coverage
    with cf.ThreadPoolExecutor(2) as ex:
        fa, fb = ex.submit(build_bare, run), ex.submit(build_so, run, "default", "gcc", "-std=c99 -Os")
        (bare, und, err), so = fa.result(), fb.result()
    # the shared object as the Makefile builds it
    _, o, _ = sh(["nm", "-D", "--undefined-only", os.path.join(so, "libgrapheme.so")])
    dyn = [l.split()[-1].split("@")[0] for l in o.split("\n") if l.strip()]
    needs = re.findall(r"NEEDED.*\[(.*)\]", sh(["readelf", "-d", os.path.join(so, "libgrapheme.so")])[1])
    for s in sorted(set(und + [s for s in dyn if not FREE.match(s)] + needs)):
        run.res.violation("needs-" + s, run.replay_text("needs-%s.txt" % s, "# build: bare\nthe library needs %s\n%s" % (s, err)),
                          "the library cannot be linked without a C library: it needs %s" % s)
    c["undefined_dynamic_symbols"] = dyn
    if bare:
        n = 400 if not run.thorough else 8000
        # two runs with stack measurement decide: short texts against long ones
        jobs = [["run", str(run.seed), str(w * n), str(w * n + n)] for w in range(JOBS)]
        fams = FAMILIES + (80 if not run.thorough else 600)
        lens = (16, 64, 256, 1024, 3000, 66000) if not run.thorough else (8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6000, 20000, 66000)
        jobs += [["stack", str(w), str(fams), str(JOBS), str(l)] for l in reversed(lens) for w in range(JOBS)]
        high = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for job, (rc, o) in zip(jobs, ex.map(lambda j: run_bare(run, bare, j), jobs)):
                if rc == 0 and o.endswith("done\n"):
                    add_calls(run, o)
                    for f, d, at in re.findall(r"^stack (\d+) (\d+) (\d+)", o, re.M):
                        if int(d) > high.get((int(f), int(job[4])), (-1, 0))[0]:
                            high[(int(f), int(job[4]))] = (int(d), int(at))
                    continue
                if rc == 4:
                    raise Broken("this sandbox does not allow seccomp filters")
                if rc == 2:
                    raise Broken("the program without a C library could not run: " + o[-300:])
                m = re.findall(r"^at (\d+) (\d+)", o, re.M)
                where = "in grapheme_%s, case %s of seed %s" % (FN[int(m[-1][1])], m[-1][0], job[1]) if m and job[0] == "run" else "with arguments " + " ".join(job)
                sig = -rc if rc < 0 else rc - 128
                txt = "# build: bare\n# case: %s\nended with %d %s\n" % (" ".join(job), rc, where)
                if sig == 31:
                    run.res.violation("system-call", run.replay_text("syscall.txt", txt), "a forbidden system call was made " + where)
                elif job[0] == "stack" and sig == 11:
                    run.res.violation("stack-overflow", run.replay_text("overflow.txt", txt), "a stack of 8 MiB does not suffice " + where)
                else:
                    run.res.violation("crash", run.replay_text("crash.txt", txt), "without a C library the program ends with %d %s" % (rc, where))
        short = [l for l in lens if l <= 256]
        for f in range(len(FN)):
            a = max((high.get((f, l), (0, 0)) for l in short))
            for l in lens:
                b = high.get((f, l), (0, 0))
                if l > 256 and b[0] > a[0] + 256:
                    run.res.violation("stack-%s" % FN[f], run.replay_text("stack-%s.txt" % FN[f], "# build: bare\n# case: stack %d %d 1 %d\n" % (b[1], b[1] + 1, l)),
                                      "grapheme_%s needs %d bytes of stack for family %d of %d code points, but at most %d for texts of up to 256" % (FN[f], b[0], b[1], l, a[0]))
                    break
        c["stack_bytes"] = {FN[f]: {str(l): high.get((f, l), (0, 0))[0] for l in lens} for f in range(len(FN))}
        c["distinct_nontrivial"] = n * JOBS + fams * len(lens)
        if not run.res.violations:
            total_calls(run)
    c["rule"] = "one case is one text with all functions, in a process without C library in which every system call but its own exit and result output is fatal"
    c["samples"] = ["stack use per function and text length: see stack_bytes"]
    run.res.assumptions = ["x86-64 Linux; the archive is compiled with -ffreestanding as the shared object is, and may call memcpy, memmove, memset and memcmp as every freestanding compiler output",
                           "stack use is measured from 512 bytes below the workload's frame"]


# ---------------------------------------------------------------- G23

CONFIGS = {
    "gcc-O2": ("gcc", "-std=c99 -O2", ".a"),
    "gcc-O0-unsigned-char": ("gcc", "-std=c99 -O0 -funsigned-char -ftrivial-auto-var-init=pattern", ".a"),
    "gcc-O3-c11-auto-init-zero": ("gcc", "-std=c11 -O3 -ftrivial-auto-var-init=zero", ".a"),
    "gcc-Os-shared": ("gcc", "-std=c99 -Os", ".so"),
    "clang-O0": ("clang", "-std=c99 -O0 -ftrivial-auto-var-init=pattern", ".a"),
    "clang-O1-signed-char": ("clang", "-std=c99 -O1 -fsigned-char", ".a"),
    "clang-O2-unsigned-char-shared": ("clang", "-std=c99 -O2 -funsigned-char", ".so"),
    "clang-32-bit-O1-unsigned-char": ("clang", "-std=c99 -O1 -funsigned-char", ".32"),
    "clang-32-bit-Os": ("clang", "-std=c99 -Os", ".32"),
    "clang-O3-c17": ("clang", "-std=c17 -O3 -march=native", ".a"),
}
CONFIGS_MORE = {
    "gcc-O1-unsigned-char-shared": ("gcc", "-std=c99 -O1 -funsigned-char", ".so"),
    "gcc-O2-lto-no-strict-aliasing": ("gcc", "-std=c99 -O2 -fno-strict-aliasing -fwrapv", ".a"),
    "gcc-O3-unsigned-char-native": ("gcc", "-std=c99 -O3 -funsigned-char -march=native -funroll-loops", ".a"),
    "gcc-Og": ("gcc", "-std=gnu17 -Og", ".a"),
    "gcc-Ofast-shared": ("gcc", "-std=c99 -Ofast", ".so"),
    "clang-Oz-unsigned-char": ("clang", "-std=c99 -Oz -funsigned-char", ".a"),
    "clang-Os-shared": ("clang", "-std=c99 -Os", ".so"),
    "clang-O3-no-strict-aliasing": ("clang", "-std=c99 -O3 -fno-strict-aliasing -fwrapv -ftrivial-auto-var-init=pattern", ".a"),
}
DEFAULT = "gcc-O2"


def build_config(run, name):
    cc, fl, kind = dict(CONFIGS, **CONFIGS_MORE)[name]
    d = run.dir("cfg-" + name)
    if kind == ".32":
        # without C library, as there is none for this architecture; the generators are 64-bit programs
        lib = build_lib(d, cc=cc, cflags=fl + " -m32 -ffreestanding -fno-stack-protector -fno-pie", build_cc=cc, build_cflags=fl)
        drv = os.path.join(lib, "drv32")
        o = []
        for f in ("bare.c", "work.c"):
            o.append(os.path.join(lib, f + ".o"))
            sh(["clang", "-m32", "-std=gnu11", "-O2", "-ffreestanding", "-fno-stack-protector", "-fno-pie", "-I" + lib, "-c", os.path.join(SRC, f), "-o", o[-1]])
        sh(["clang", "-m32", "-nostdlib", "-static"] + o + [os.path.join(lib, "libgrapheme.a"), "-o", drv])
        return lib, drv
    if kind == ".so":
        lib = build_lib(d, cc=cc, cflags=fl, build_cc=cc, build_cflags=fl, target="libgrapheme.so", extra=["SONAME=libgrapheme.so"])
        m = re.search(r"SONAME.*\[(.*)\]", sh(["readelf", "-d", os.path.join(lib, "libgrapheme.so")])[1])
        if m and m.group(1) != "libgrapheme.so":
            os.symlink("libgrapheme.so", os.path.join(lib, m.group(1)))
        link = [os.path.join(lib, "libgrapheme.so"), "-Wl,-rpath," + lib]
    else:
        lib = build_lib(d, cc=cc, cflags=fl, build_cc=cc, build_cflags=fl)
        link = [os.path.join(lib, "libgrapheme.a")]
    drv = os.path.join(lib, "drv")
    # the workload itself is always compiled in the same way
    sh(["gcc", "-std=gnu11", "-O2", "-DW_MAXCP=70000", "-I" + lib, os.path.join(SRC, "drv.c"), W] + link + ["-o", drv])
    return lib, drv


def run_bare32(run, drv, jobs):
    def one(job):
        out = run.dir()
        rc, o, e = sh(["sh", "-c", "exec \"$@\" 9>" + out, "sh", drv, "digest", job[1], job[2], job[3]], check=False, timeout=3600 if run.thorough else 500)
        n = os.path.getsize(out) // (4 * len(FN))
        return job, rc, "", e, {"seed": int(job[1]), "idx": int(job[2]) + n, "len": 0, "f": "call", "fam": 0, "done": rc == 0, "bad": 0, "what": ""}, out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def g23(run):
    c = run.res.coverage
    names = list(CONFIGS) + (list(CONFIGS_MORE) if run.thorough else [])
    with cf.ThreadPoolExecutor(4) as ex:
        def build(n):
            try:
                return build_config(run, n)
            except BuildFailed:
                if "32-bit" in n:
                    return None
                raise
        built = dict(zip(names, ex.map(build, names)))
    for n in [n for n in names if built[n] is None]:
        c.setdefault("not_run", []).append(n + ": cannot be built without a 32-bit C library here")
    names = [n for n in names if built[n]]
    gens = {}
    for n in names:
        g = os.path.join(built[n][0], "gen")
        gens[n] = {f: hashlib.sha256(open(os.path.join(g, f), "rb").read()).hexdigest() for f in os.listdir(g) if f.endswith(".h")}
    for n in names:
        for f in sorted(gens[DEFAULT]):
            if gens[n].get(f) != gens[DEFAULT][f]:
                run.res.violation("tables-" + f, run.replay_text("tables-%s-%s.txt" % (n, f), "# build: config %s\ngen/%s\n" % (n, f)),
                                  "gen/%s differs between %s and %s" % (f, DEFAULT, n))
    n_cases = 24000 if not run.thorough else 200000
    jobs = [["run", str(run.seed), str(k * n_cases // JOBS), str((k + 1) * n_cases // JOBS), "1", "OUT", "l"] for k in range(JOBS)]
    jobs += [["fam", str(k), str(FAMILIES + 80), str(JOBS), "OUT", "700", "l"] for k in range(JOBS)]
    jobs += [["fam", str(k), str(FAMILIES), str(JOBS), "OUT", "66000", "l"] for k in range(JOBS)]
    ref = {}
    nres = 0
    ran = []
    for n in names:
        if built[n][1].endswith("drv32"):
            try:
                subprocess.run([built[n][1]], capture_output=True)
            except OSError:
                c.setdefault("not_run", []).append(n + ": this machine does not run 32-bit programs")
                continue
            res = run_bare32(run, built[n][1], [j for j in jobs if j[0] == "run"])
        else:
            res = run_drv(run, built[n][1], jobs)
        ran.append(n)
        for job, rc, o, e, st, out in res:
            k = tuple(job)
            data = open(out, "rb").read() if rc == 0 else b""
            os.unlink(out)
            if rc == 0:
                add_calls(run, o)
            if n == DEFAULT:
                ref[k] = (rc, data)
                if rc and not st["bad"]:
                    # this is for the memory safety check to judge
                    raise Broken("the workload ends with %d in the reference configuration: %s" % (rc, e[-500:]))
                continue
            nres += len(data) // 4
            if (rc, data) == ref[k] or rc == 3 and ref[k][0] == 3:
                continue
            head = "# build: config %s\n" % n
            if rc or ref[k][0]:
                run.res.violation("%s-ends" % st["f"], run.replay_text("%s-ends.txt" % n, head + case_text(built[n][1], st, "l") + e),
                                  "grapheme_%s, case %d: with %s the process ends with %d (%s)" % (st["f"], st["idx"], n, rc, st["what"] or "reference: %d" % ref[k][0]))
                continue
            a, b = ref[k][1], data
            i = next(i for i in range(0, max(len(a), len(b)), 4) if a[i:i + 4] != b[i:i + 4]) // 4
            f, ci = FN[i % len(FN)], i // len(FN)
            s = {"fam": job[0] == "fam", "seed": run.seed, "len": int(job[5]) if job[0] == "fam" else 0, "idx": int(job[1]) + ci * JOBS if job[0] == "fam" else int(job[2]) + ci}
            run.res.violation("%s-differs" % f, run.replay_text("%s-%s.txt" % (n, f), head + case_text(built[n][1], s, "l")),
                              "grapheme_%s gives another result with %s than with %s (case %d of seed %d%s)" %
                              (f, n, DEFAULT, s["idx"], run.seed, ", growing text" if s["fam"] else ""))
    if not run.res.violations:
        total_calls(run)
    c["distinct_nontrivial"] = n_cases + FAMILIES + 80
    c["results_compared"] = nres
    c["configurations"] = ran
    c["rule"] = "one case is one text with all functions; the digest of every function's results is compared between all configurations, and so are the generated tables"
    c["samples"] = ["%d digests compared over %d configurations" % (nres, len(ran))]
    run.res.assumptions = ["one machine, little endian; LP64 and, for part of the workload, ILP32"]


# ---------------------------------------------------------------- G22

# most edges per code point seen on the growing texts with the tree this was written for; the bound leaves room for
# a different implementation: six times that and a constant
COST_LINEAR = {"next_character_break": 13, "next_character_break_utf8": 48, "walk-character": 67, "next_word_break": 22, "next_word_break_utf8": 73,
               "walk-word": 264, "next_line_break": 26, "next_line_break_utf8": 62, "walk-line": 81, "to_uppercase": 14, "to_lowercase": 41,
               "to_titlecase": 166, "to_uppercase_utf8": 49, "to_lowercase_utf8": 69, "to_titlecase_utf8": 349, "is_uppercase": 28,
               "is_lowercase": 22, "is_titlecase": 179, "is_uppercase_utf8": 72, "is_lowercase_utf8": 57, "is_titlecase_utf8": 333,
               "get_line_embedding_levels": 6}
# the same, per square of the length
COST_SQUARE = {"next_sentence_break": 3.6, "next_sentence_break_utf8": 6.6, "walk-sentence": 6.6, "preprocess-neutral": 4.3, "preprocess-ltr": 4.3,
               "preprocess-rtl": 4.3, "reorder_line": 1.5}
COST_CONST = {"decode_utf8": 400, "encode_utf8": 400, "local-character": 150, "local-line": 150}


def cost_bound(f, n):
    if f in COST_CONST:
        return COST_CONST[f]
    if f in COST_LINEAR:
        return 2000 + (6 * COST_LINEAR[f] + 60) * n
    return 2000 + (20000 if f == "reorder_line" else 3000) * n + 6 * COST_SQUARE[f] * n * n


def build_cost(run):
    lib = build_lib(run.dir("lib-cost"), cc="clang", cflags="-std=c99 -O1 -fsanitize-coverage=trace-pc-guard")
    cost = run.dir("cost")
    sh(["gcc", "-std=gnu11", "-O2", "-I" + lib, os.path.join(SRC, "cost.c"), W, os.path.join(lib, "libgrapheme.a"), "-o", cost] +
       ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen"))])
    return cost


def run_cost(run, cost, jobs):
    def one(j):
        try:
            return j, sh([cost] + j, check=False, timeout=3000 if run.thorough else 400)
        except Broken:
            return j, (None, "", "")
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def g22(run):
    c = run.res.coverage
    cost = build_cost(run)
    fams = 500 if not run.thorough else 6000
    lens = ["250", "500", "1000", "2000", "4000"] if not run.thorough else ["31", "250", "500", "1000", "2000", "4000", "6000"]
    n_rand = 16000 if not run.thorough else 400000
    jobs = [[str(w), str(fams), str(4 * JOBS)] + lens for w in range(4 * JOBS)]
    # the random families depend on the seed
    off = FAMILIES + 1000 * (run.seed % 1000)
    jobs += [[str(off + 7000 + w), str(off + 7000 + fams), str(4 * JOBS)] + lens for w in range(4 * JOBS)]
    worst = {}
    calls = 0
    for j, (rc, o, e) in run_cost(run, cost, jobs):
        if rc is None:
            run.res.violation("no-return", run.replay_text("no-return-%s.txt" % j[0], "# build: cost\n# case: %s\n" % " ".join(j)),
                              "the calls on the growing texts %s did not end, but run without executing any control flow" % " ".join(j))
            continue
        if rc != 0 or not re.search(r"^(done|over)$", o, re.M):
            raise Broken("counting ended with %s: %s" % (rc, (o + e)[-400:]))
        for l in o.split("\n"):
            f = l.split()
            if len(f) != 5:
                continue
            calls += 1
            fam, n, fn, ed = int(f[0]), int(f[1]), f[2], int(f[3])
            over = f[4] == "-1"
            b = cost_bound(fn, n)
            k = ed / (b or 1)
            if k > worst.get(fn, (-1,))[0]:
                worst[fn] = (k, ed, n, fam)
            if ed > b or over:
                run.res.violation("cost-" + fn, run.replay_text("cost-%s-%d-%d.txt" % (fn, fam, n), "# build: cost\n# case: %d %d 1 %d\n%s\n" % (fam, fam + 1, n, l)
                                                                + sh([cost_show(run), "showfam", str(fam), str(n)])[1]),
                                  "%s%s executes %s%d edges on growing text %d of %d code points, the bound is %d" %
                                  ("" if "-" in fn and not fn.startswith("pre") else "grapheme_", fn, "more than " if over else "", ed, fam, n, b))
    if not run.res.violations:
        for j, (rc, o, e) in run_cost(run, cost, [["rand", str(run.seed), str(w), str(n_rand), str(JOBS)] for w in range(JOBS)]):
            m = re.search(r"^(\d+) (\d+) (\w+) (\d+) -1\nover", o, re.M)
            if rc is None or m:
                run.res.violation("no-return", run.replay_text("no-return-rand.txt", "# build: cost\n# case: %s\n%s" % (" ".join(j), o)),
                                  "grapheme_%s does not return within any sensible number of steps (case %s of seed %d)" % (m.group(3) if m else "*", m.group(1) if m else "?", run.seed))
            elif rc != 0 or "done" not in o:
                raise Broken("counting ended with %s: %s" % (rc, (o + e)[-400:]))
    c["evaluations"] = calls
    c["distinct_nontrivial"] = 2 * fams
    c["random_cases_with_step_limit"] = n_rand
    c["rule"] = "one case is one growing text (prefix, repeated unit, second unit); evaluations counts measured calls over all lengths"
    c["closest_to_the_bound"] = {f: "%.2f of it: %d edges, text %d, length %d" % (w[0], w[1], w[3], w[2]) for f, w in sorted(worst.items())}
    c["samples"] = ["lengths " + " ".join(lens)]
    run.res.assumptions = ["work is counted in control-flow edges of a clang -O1 build; memory and string functions of the C library count one per 16 bytes",
                           "the bounds leave a factor of six over what the present implementation needs"]


def cost_show(run):
    p = os.path.join(run.scratch, "show")
    if not os.path.exists(p):
        lib = os.path.join(run.scratch, "lib-show")
        build_lib(lib)
        sh(["gcc", "-std=gnu11", "-O1", "-I" + lib, os.path.join(SRC, "drv.c"), W, os.path.join(lib, "libgrapheme.a"), "-o", p])
    return p
