"""The checks, one function per property."""
import concurrent.futures as cf
import filecmp, re, shutil
from core import *
import ucdmut, work


def mon_check(run):
    lib = build_lib(run.dir("lib"))
    mon = build_mon(run.scratch, [lib])[0]
    wait = work.walk(run, lib)
    try:
        run_mon(run, mon, UCD)
    except Broken:
        wait(True)
        raise
    wait()


# ---------------------------------------------------------------- G20

SAN = {
    "asan-clang": ("clang", "-fsanitize=address,undefined -fno-sanitize-recover=all"),
    "asan-gcc": ("gcc", "-fsanitize=address,undefined -fno-sanitize-recover=all"),
    "msan": ("clang", "-fsanitize=memory -fsanitize-memory-track-origins"),
}


def is_report(text):
    return re.search(r"Sanitizer|runtime error:", text) is not None


def g20(run):
    seed = run.seed
    styles = [("light", seed, "asan-clang"), ("heavy", seed, "asan-gcc"), ("sparse", seed, "msan"), ("format", seed, "asan-clang")]
    styles += [("edge", seed + i, ["asan-gcc", None][i]) for i in range(2)]
    styles += [("far", i, None) for i in range(len(ucdmut.DISTANCES))]
    if run.thorough:
        styles += [("edge", seed + i, None) for i in range(2, 10)]
        for i in range(1, 13):
            styles += [("light", seed + 100 * i, ["asan-clang", "msan", None, "asan-gcc"][i % 4]), ("heavy", seed + 100 * i, None if i % 2 else "msan")]
        for i in range(1, 5):
            styles += [("sparse", seed + 100 * i, "asan-gcc"), ("format", seed + 100 * i, "msan" if i % 2 else "asan-gcc")]
    env = os.environ
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    base = build_lib(run.dir("base"))
    jobs = [("base", 0, None), ("base", 0, "asan-clang"), ("base", 0, "msan")] + styles
    dirs = {}

    def one(job):
        style, sd, san = job
        d = os.path.join(run.scratch, "v-%s-%d-%s" % (style, sd, san))
        os.makedirs(d)
        u = None
        if style != "base":
            u = os.path.join(d, "ucd")
            ucdmut.make(UCD, u, style, sd)
        cc, fl = SAN.get(san, ("gcc", ""))
        try:
            if style == "far":
                # only what depends on the changed data is generated again
                lib = os.path.join(d, "lib")
                shutil.copytree(base, lib, symlinks=True)
                for f in os.listdir(u):
                    if f.endswith(".txt") and f != "changed.txt" and not filecmp.cmp(os.path.join(u, f), os.path.join(lib, "data", f), shallow=False):
                        shutil.copy(os.path.join(u, f), os.path.join(lib, "data", f))
                sh(["make", "-j%d" % JOBS, "libgrapheme.a", "CC=gcc", "CFLAGS=-std=c99 -O2", "BUILD_CC=gcc", "BUILD_CFLAGS=-std=c99 -O2"], cwd=lib,
                   what="building the library again after a change of the data")
                return job, d, None
            build_lib(os.path.join(d, "lib"), build_cc=cc, build_cflags="-std=c99 -O1 -g " + fl, ucd=u, extra=["BUILD_LDFLAGS=" + fl])
        except BuildFailed as e:
            return job, d, str(e)
        return job, d, None

    mon0 = build_mon(run.scratch, [base])[0]
    n_gen = 0
    digests = 0
    batch = 4
    for k in range(0, len(jobs), batch):
        with cf.ThreadPoolExecutor(batch) as ex:
            res = list(ex.map(one, jobs[k:k + batch]))
        for (style, sd, san), d, err in res:
            n_gen += 1
            tag = "# variation: %s %d generators: %s\n" % (style, sd, san)
            if err:
                key = "generator-report" if is_report(err) else "generation-fails"
                run.res.violation(key, run.replay_text("%s-%s-%d" % (key, style, sd), tag + err),
                                  "generating and building from %s data (seed %d, generators built with %s): %s" % (style, sd, san, err[-700:].replace("\n", " | ")))
                shutil.rmtree(d)
                continue
            if style == "base":
                for f in sorted(os.listdir(os.path.join(base, "gen"))):
                    if f.endswith(".h"):
                        a, b = os.path.join(base, "gen", f), os.path.join(d, "lib", "gen", f)
                        digests += 1
                        if not os.path.exists(b) or not filecmp.cmp(a, b, shallow=False):
                            run.res.violation("generation-differs", run.replay_text("differs-" + f, tag + f),
                                              "gen/%s differs between two generations from the same data (second one: %s)" % (f, san))
            else:
                nv = len(run.res.violations)
                out = os.path.join(d, "lib", "mon")
                sh(["g++"] + [os.path.join(run.scratch, "mon", s + ".o") for s in MON_SRC] + [os.path.join(d, "lib", "libgrapheme.a"), "-o", out])
                run_mon(run, out, os.path.join(d, "ucd"), workers=1 if style == "far" else JOBS)
                for key, path, msg in run.res.violations[nv:]:
                    t = open(path).read()
                    p = path + ".v"
                    with open(p, "w") as f:
                        f.write(tag + t)
                run.res.violations[nv:] = [(key, shutil.copyfile(p + ".v", run.dir("g20-%d.case" % i)), "%s data, seed %d: %s" % (style, sd, msg))
                                           for i, (key, p, msg) in enumerate(run.res.violations[nv:])]
            shutil.rmtree(d)
    c = run.res.coverage
    c["libraries_generated"] = n_gen
    c["generated_files_compared"] = digests
    c["variations"] = ["%s seed %d, generators %s" % s for s in styles]
    run.res.assumptions = ["the variations respect the generators' capacities named in the property",
                           "@missing defaults of the bidi classes stay those of the shipped data (the generator has them built in)"]


CHECKS = {p: mon_check for p in ("G02", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "G10", "G11", "G12", "G13", "G14", "G15", "G16", "G17", "G19")}
CHECKS["G20"] = g20
CHECKS["G01"] = work.g01
CHECKS["G18"] = work.g18
CHECKS["G21"] = work.g21
CHECKS["G23"] = work.g23
CHECKS["G22"] = work.g22
