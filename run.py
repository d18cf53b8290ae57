#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and decides one property.

  run.py setup            build everything once (only an optimisation)
  run.py check C07        tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  run.py replay C07 FILE  run one saved case with its trace
  run.py engine           print the path of the engine with every property

Exit: 0 held on everything explored, 1 violation (VIOLATION line), 2 no verdict.
"""
import fcntl, functools, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("VF_JOBS", "0")) or max(2, min(16, os.cpu_count() or 8))

GROUPS = {
    "forest": ["C01", "C08", "C09", "C13", "C18"],
    "pollard": ["C02", "C03", "C04", "C05", "C06", "C07"],
    "io": ["C10", "C11", "C12", "C17", "C20"],
    "net": ["C19"],
    "arith": ["C14", "C21"],
    "huge": ["C15"],
    "hash": ["C16"],
    "memory": ["C22"],
    "threads": ["C23"],
    "builds": ["C24"],
    "print": ["C25"],
}
TSAN_GROUPS = {"threads"}  # built with the thread sanitizer instead of address and undefined
# cases of the quick tier
CASES = {
    "C01": 120000, "C02": 40000, "C03": 60000, "C04": 80000, "C05": 40000,
    "C06": 40000, "C07": 50000, "C08": 140000, "C09": 100000, "C10": 70000,
    "C11": 400000, "C12": 500000, "C13": 60000, "C14": 500000, "C15": 30000,
    "C16": 1000000, "C17": 140000, "C18": 90000, "C19": 30000, "C20": 160000,
    "C21": 200000, "C22": 25000, "C23": 20000, "C24": 9000,
    "C25": 30000,
}
NO_SCALE = {"C11", "C12", "C14", "C16", "C21"}  # histories that do not grow with the scale
QUICK_WALL = 300
THOROUGH = dict(factor=10, wall=330, scale_factor=0.5, scale_wall=110, verify_wall=70, fuzz_s=120)

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer", "-pthread"]
BASE = ["-std=c++17", "-g", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]


# C24: other ways to build the library, each a shared object. The first two are what the project's build makes.
BUILDS = [
    ("gcc -O2", "g++", ["-O2"]),
    ("gcc -O2 -DUTREEXO_VERIFY", "g++", ["-O2", "-DUTREEXO_VERIFY"]),
    ("gcc -O0 -ftrapv (debug)", "g++", ["-O0", "-ftrapv", "-DDEBUG", "-DDEBUG_LOCKORDER", "-DABORT_ON_FAILED_ASSUME"]),
    ("gcc -O3 -DNDEBUG", "g++", ["-O3", "-DNDEBUG"]),
    ("clang -O2", "clang++", ["-O2"]),
    ("clang -O0 -DNDEBUG unsigned char", "clang++", ["-O0", "-DNDEBUG", "-funsigned-char"]),
    ("clang -O3 -DUTREEXO_VERIFY", "clang++", ["-O3", "-DUTREEXO_VERIFY"]),
]


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def rd(path):
    with open(path, "rb") as f:
        return f.read()


def lib_sources():
    """The library's sources as listed in sources.mk; all of src/ if that changed its form."""
    out = []
    try:
        for line in rd(os.path.join(REPO, "sources.mk")).decode().splitlines():
            m = re.match(r"\s*UTREEXO_LIB_SOURCES_INT\s*\+?=\s*(.*)$", line)
            if m:
                out += [x.replace("%reldir%/", "") for x in m.group(1).split() if x.endswith(".cpp")]
    except OSError:
        pass
    out = [x for x in out if os.path.exists(os.path.join(REPO, x))]
    if not out:
        out = [os.path.relpath(x, REPO) for x in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/crypto/*.cpp"))]
    return out


def repo_headers():
    hs = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_")) and d not in ("test", "bench", "fuzz", "build-aux"))
        hs += [os.path.join(root, f) for f in sorted(files) if f.endswith((".h", ".hpp", ".inc", ".ipp"))]
    return hs


@functools.lru_cache(None)
def tsan_works():
    """The thread sanitizer needs an address layout that some sandboxes refuse."""
    d = tempfile.mkdtemp(prefix="vf-tsan-")
    try:
        open(d + "/t.cpp", "w").write("#include <thread>\n#include <unistd.h>\n#include <sys/wait.h>\nint x; int main(){ pid_t p = fork(); "
                                      "if (!p) { std::thread a([]{ x = 1; }); a.join(); _exit(x - 1); } int st = 1; waitpid(p, &st, 0); return st != 0; }\n")
        r = sh(["clang++", *TSAN, d + "/t.cpp", "-o", d + "/t"])
        if r.returncode == 0:
            r = sh([d + "/t"], timeout=60)
        if r.returncode:
            print("note: the thread sanitizer does not work here; results are compared without it")
        return r.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def variants(inc, hdr, hhdr):
    """The shared objects of C24; their list goes to the engine through VF_BUILDS."""
    todo, listed = [], []
    for name, cc, fl in BUILDS:
        if not shutil.which(cc):
            print(f"note: {cc} is not here, left out: {name}")
            continue
        cmd = [cc, "-std=c++17", "-g1", "-w", "-fPIC", "-shared", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic", "-DVF_PLAY=vf_play",
               *(["-fno-gnu-unique"] if cc == "g++" else []), *fl, *inc]
        src = [os.path.join(REPO, x) for x in lib_sources()] + [H + "/builds_play.cpp"]
        so = f"{BUILD}/obj/{digest(*cmd, *[rd(x) for x in src], hdr, hhdr)}.so"
        listed.append(f"{name}={so}")
        todo.append((cmd, src, so))

    def make(t):
        cmd, src, so = t
        if os.path.exists(so):
            os.utime(so)
            return None
        tmp = f"{so}.{os.getpid()}.tmp"
        r = sh([*cmd, *src, "-o", tmp])
        if r.returncode:
            return f"building {so} failed:\n{r.stdout[-4000:]}"
        os.rename(tmp, so)
        return None

    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(make, todo) if e]
    if errs:
        raise NoVerdict("\n".join(errs))
    os.environ["VF_BUILDS"] = "|".join(listed)


def build(groups, fuzz=False, verify=False):
    """Engine (or fuzz target) for the given groups, from the current working tree."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    inc = ["-I" + REPO, "-I" + REPO + "/src", "-I" + H]
    san = TSAN if set(groups) <= TSAN_GROUPS and tsan_works() else SAN
    flags = BASE + san + (["-fsanitize=fuzzer-no-link"] if fuzz else [])
    libflags = flags + (["-DUTREEXO_VERIFY"] if verify else [])
    hdr = digest(*[x.encode() + rd(x) for x in repo_headers()])
    hhdr = digest(*[rd(x) for x in sorted(glob.glob(H + "/*.h"))])
    units = []
    for s in lib_sources():
        units.append((os.path.join(REPO, s), libflags + inc, [hdr]))
    for g in groups:
        units.append((f"{H}/props_{g}.cpp", libflags + inc, [hdr, hhdr]))
    for s in ["core", "fuzz_main" if fuzz else "engine"] + (["alloc"] if "io" in groups else []):
        units.append((f"{H}/{s}.cpp", flags + inc, [hhdr]))
    units.append((f"{H}/refhash.cpp", ["-std=c++17", "-O2", "-w"], [hhdr]))
    if "builds" in groups:
        units.append((f"{H}/builds_play.cpp", libflags + inc + ["-DVF_PLAY=vf_play_here"], [hdr, hhdr]))
        variants(inc, hdr, hhdr)
    jobs = []
    for src, fl, deps in units:
        o = f"{BUILD}/obj/{digest(src, rd(src), ' '.join(fl), *deps)}.o"
        jobs.append((src, fl, o))
    exe = f"{BUILD}/{'fuzz' if fuzz else 'engine'}-{digest(*[j[2] for j in jobs])}"
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        # keep the cache small
        old = sorted(glob.glob(BUILD + "/obj/*o") + glob.glob(BUILD + "/engine-*") + glob.glob(BUILD + "/fuzz-*"), key=os.path.getmtime)
        size = sum(os.path.getsize(x) for x in old)
        while old and size > 600 << 20:
            x = old.pop(0)
            size -= os.path.getsize(x)
            os.unlink(x)

        def comp(j):
            src, fl, o = j
            if os.path.exists(o):
                os.utime(o)
                return None
            r = sh(["clang++", *fl, "-c", src, "-o", o + ".tmp"])
            if r.returncode:
                return f"compiling {src} failed:\n{r.stdout[-4000:]}"
            os.rename(o + ".tmp", o)
            return None

        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(comp, jobs) if e]
        if errs:
            raise NoVerdict("\n".join(errs))
        r = sh(["clang++", *san, "-pthread", *(["-ldl"] if "builds" in groups else []), *(["-fsanitize=fuzzer"] if fuzz else []), *[j[2] for j in jobs], "-o", exe + ".tmp"])
        if r.returncode:
            raise NoVerdict("linking failed:\n" + r.stdout[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


def group_of(prop):
    for g, ps in GROUPS.items():
        if prop in ps:
            return g
    raise SystemExit("unknown property " + prop)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=1500:"
                         "hard_rss_limit_mb=3000:quarantine_size_mb=16:max_malloc_fill_size=4096:detect_stack_use_after_return=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"
    e["LC_ALL"] = "C"
    return e


def run_engine(exe, args, timeout):
    r = sh([exe, *args], env=env(), timeout=timeout)
    return r.returncode, r.stdout


def replay_path(prop, tag):
    os.makedirs(VERIF + "/replays", exist_ok=True)
    return f"{VERIF}/replays/{prop}-{tag}.txt"


def random_run(prop, exe, seed, cases, wall, scale, tag):
    """One campaign. Returns (stats, replay or None, message)."""
    fd, stats = tempfile.mkstemp(prefix="vf-stats-")
    os.close(fd)
    fail = replay_path(prop, tag)
    if os.path.exists(fail):
        os.unlink(fail)
    try:
        rc, out = run_engine(exe, ["--prop", prop, "--seed", str(seed), "--cases", str(cases), "--jobs", str(JOBS), "--stats", stats,
                                   "--fail", fail, "--wall", str(wall), "--scale", str(scale),
                                   *(["--tries", "40"] if group_of(prop) in TSAN_GROUPS else [])], wall + 400)
        try:
            st = json.load(open(stats))
        except (OSError, ValueError):
            st = None
    except subprocess.TimeoutExpired:
        raise NoVerdict("the engine did not finish")
    finally:
        os.unlink(stats)
    if rc == 1 and os.path.exists(fail):
        m = re.findall(r"^FAILED .*$", out, re.M)
        return st, fail, (m[-1] if m else "failed")
    if rc == 0 and st:
        if st["infra"]:
            print(f"note: {st['infra']} worker(s) were ended from outside")
        return st, None, ""
    print(out[-3000:])
    if rc == 4:
        return st, None, "unreproducible"
    raise NoVerdict(f"engine ended with {rc}")


def fuzz_run(prop, seed, seconds, engine):
    """Coverage-guided campaign over the same cases. Returns (executions, corpus size, replay or None, message)."""
    exe = build([group_of(prop)], fuzz=True)
    work = tempfile.mkdtemp(prefix="vf-fuzz-")
    try:
        e = env()
        e["VF_PROP"] = prop
        procs = []
        for j in range(JOBS):
            d = f"{work}/{j}"
            os.makedirs(d + "/corpus")
            os.makedirs(d + "/scratch")
            # a few random starting points besides the empty input
            import random
            rnd = random.Random(f"{seed} {prop} {j}")
            for k in range(6 if j % 2 == 0 else 0):
                open(f"{d}/corpus/s{k}", "wb").write(rnd.randbytes(400 + 300 * k))
            ee = dict(e, VF_SCRATCH=d + "/scratch")
            procs.append((d, subprocess.Popen(
                [exe, f"-seed={seed * 1000 + j + 1}", f"-max_total_time={seconds}", "-max_len=6000", "-len_control=20", "-timeout=60", "-rss_limit_mb=0",
                 "-print_final_stats=1", f"-artifact_prefix={d}/", d + "/corpus"],
                env=ee, stdout=open(d + "/log", "w"), stderr=subprocess.STDOUT)))
        for d, p in procs:
            try:
                p.wait(seconds + 200)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        execs = corpus = 0
        cands = []
        for d, p in procs:
            log = open(d + "/log", errors="replace").read()
            m = re.findall(r"stat::number_of_executed_units:\s*(\d+)", log)
            if m:
                execs += int(m[-1])
            corpus += len(os.listdir(d + "/corpus"))
            cands += glob.glob(d + "/crash-*") + glob.glob(d + "/timeout-*")
        for c in cands[:4]:
            fail = replay_path(prop, f"s{seed}-fuzz")
            rc, out = run_engine(engine, ["--prop", prop, "--bytes", c, "--fail", fail], 600)
            if rc == 1:
                m = re.findall(r"^FAILED .*$", out, re.M)
                return execs, corpus, fail, (m[-1] if m else "failed")
        if execs == 0 and not cands:
            raise NoVerdict("the fuzz target did not run")
        return execs, corpus, None, ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, tier, seed, cov, t0, violations):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    p = f"{VERIF}/evidence/{prop}.json"
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["the reference model and the independent SHA-512 of /verif/harness", "clang's sanitizers stop undefined behaviour"],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.rename(p + ".tmp", p)


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    factor = float(os.environ.get("VF_FACTOR", "1"))
    exe = build([group_of(prop)])
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "labels": {}, "campaigns": []}

    def done(replay, msg):
        write_evidence(prop, tier, seed, tot, t0, 1 if replay else 0)
        if replay:
            print(msg)
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print(f"{prop}: held on {tot['evaluations']} cases ({tot['distinct_nontrivial']} distinct non-trivial), {tier}, seed {seed}, {time.time() - t0:.1f} s")
        return 0

    # saved cases first: failures of defects that were repaired
    saved = sorted(glob.glob(f"{VERIF}/regress/{prop}/*.txt"))
    for f in saved:
        hits = 0
        for _ in range(3):
            rc, out = run_engine(exe, ["--prop", prop, "--replay", f, "--quiet", "1"], 300)
            hits += rc == 1
            if rc != 1:
                break
        if hits == 3:
            tot["evaluations"] += 1
            tot["rule"] = "saved case"
            tot["samples"] = [os.path.basename(f)]
            fail = replay_path(prop, "saved-" + os.path.basename(f)[:-4])
            shutil.copyfile(f, fail)
            return done(fail, out[-300:].strip().splitlines()[-1] if out.strip() else "saved case fails")
    tot["saved_cases_replayed"] = len(saved)

    def campaign(name, exe, seed, cases, wall, scale, tag):
        unrep = 0
        while True:
            st, fail, msg = random_run(prop, exe, seed + 7919 * unrep, cases, wall, scale, tag)
            if msg != "unreproducible":
                break
            unrep += 1
            if unrep == 3:
                raise NoVerdict("failures were seen that do not reproduce")
        if st:
            tot["evaluations"] += st["evaluations"]
            tot["distinct_nontrivial"] += st["distinct_nontrivial"]
            tot["rule"] = st["rule"]
            tot["samples"] = (tot["samples"] + st["samples"])[:4]
            for k, v in st["labels"].items():
                tot["labels"][k] = tot["labels"].get(k, 0) + v
            tot["campaigns"].append({"name": name, "cases": st["evaluations"], "planned": st["planned"], "nontrivial": st["nontrivial"],
                                     "scale": scale, "wall_s": round(st["wall_s"], 1)})
        if fail and not tot["samples"]:
            tot["samples"] = [msg]
        return fail, msg

    n = int(CASES[prop] * factor)
    if tier == "quick":
        fail, msg = campaign("random", exe, seed, n, QUICK_WALL, 1, f"s{seed}")
        return done(fail, msg)
    T = THOROUGH
    fail, msg = campaign("random", exe, seed, n * T["factor"], T["wall"], 1, f"s{seed}-t")
    if fail:
        return done(fail, msg)
    if prop not in NO_SCALE:
        fail, msg = campaign("random, long histories", exe, seed + 1, int(n * T["scale_factor"]), T["scale_wall"], 4, f"s{seed}-long")
        if fail:
            return done(fail, msg)
    vexe = build([group_of(prop)], verify=True)
    fail, msg = campaign("random, library's own consistency checks compiled in", vexe, seed + 2, n, T["verify_wall"], 1, f"s{seed}-verify")
    if fail:
        return done(fail, msg)
    if group_of(prop) in TSAN_GROUPS:
        return done(None, "")  # schedules are not a function of fuzzer bytes
    execs, corpus, fail, msg = fuzz_run(prop, seed, T["fuzz_s"], exe)
    tot["evaluations"] += execs
    tot["campaigns"].append({"name": "coverage-guided (libFuzzer) over the same cases", "cases": execs, "corpus": corpus,
                             "note": "not counted as non-trivial: only executions are measured"})
    return done(fail, msg)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            for g in GROUPS:
                build([g])
            return 0
        if a[:1] == ["engine"]:
            print(build([g for g in GROUPS if g not in TSAN_GROUPS]))
            return 0
        if a[:1] == ["check"] and len(a) == 2:
            return check(a[1])
        if a[:1] == ["replay"] and len(a) == 3:
            rc, out = run_engine(build([group_of(a[1])]), ["--prop", a[1], "--replay", a[2]], 300)
            print(out, end="")
            return rc
    except NoVerdict as e:
        print("no verdict: " + str(e))
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
