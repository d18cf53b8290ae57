#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool; no check uses it).

  mutate.py OUTDIR [--files a.cpp,b.cpp] [--cases-div 20] [--limit N] [--seed S]

Makes small changes to /repo's library sources in scratch copies, keeps those that
compile and pass the repository's tests, and runs every property's engine on them with
a fraction of the quick tier's cases. Results go to OUTDIR/results.jsonl; survivors are
to be read by a human: equivalent, or a hole in a check.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, queue
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run as R

SRC = ["src/accumulator.cpp", "src/pollard.cpp", "src/ram_forest.cpp", "src/batchproof.cpp", "src/state.cpp", "src/crypto/sha512.cpp"]

RULES = [
    (r"(?<= )<(?= )", ["<="]), (r"<=", ["<", "=="]), (r"(?<= )>(?= )", [">="]), (r"(?<!>)>=", [">", "=="]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
    (r"(?<![+\w])\+(?![+=])| \+ ", [" - "]), (r"(?<![-\w>])-(?![-=>])| - ", [" + "]), (r"\+\+", ["--"]), (r"--", ["++"]),
    (r"\+=", ["-="]), (r"-=", ["+="]), (r"<<", [">>"]), (r">>(?!=)", ["<<"]), (r"(?<= )&(?= )", ["|"]), (r"(?<!\|)\|(?!\|)", ["&"]), (r"\^", ["|", "&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"!(?=[\w(])", [""]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b", ["N+1"]),
    (r"\buint64_t\b", ["uint32_t"]), (r"\buint8_t\b", ["int8_t"]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;", ";"]),
    (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]), (r"\bfrom\b", ["to"]), (r"\bto\b", ["from"]), (r"\bleft", ["right"]), (r"\bright", ["left"]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\.begin\(\)", [".end()"]), (r"\.back\(\)", [".front()"]),
]


def mutants(path):
    lines = open(os.path.join(R.REPO, path)).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "#", "using", "namespace", "assert", "std::cout")) or "CHECK_SAFE" in s or "HexStr" in s or "'0'" in s or "'8'" in s:
            continue
        code = l.split("//")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for rep in reps:
                    if rep == "N+1":
                        rep = str(int(m.group(0)) + 1)
                    out.append((i, code[:m.start()] + rep + code[m.end():]))
        if re.match(r"^\s*[\w.\->\[\]():*&, +<>]+;$", code.rstrip()) and not re.match(r"\s*(return|break|continue|const|auto|uint\w+|int|bool|std::|Hash|NodePtr|ForestState|\})", code):
            out.append((i, re.match(r"\s*", code).group(0) + ";"))
        m = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{.*| return.*|)$", code)
        if m and code.count("(") == code.count(")"):
            a, b = code.index("if (") + 4, code.rindex(")") if not m.group(3).strip().startswith("return") else len(code.rstrip()) - len(m.group(3).rstrip()) - 1
            for v in ("true", "false"):
                out.append((i, code[:a] + v + code[b:]))
        if re.match(r"^\s*return .*;", code) and "tie" not in code:
            pass
    seen, res = set(), []
    for i, n in out:
        if n != lines[i] and (i, n) not in seen:
            seen.add((i, n))
            res.append((path, i, n))
    return res


def sh(cmd, cwd=None, timeout=120, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(SRC))
    ap.add_argument("--cases-div", type=int, default=20)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    os.makedirs(a.out, exist_ok=True)
    allm = [m for f in a.files.split(",") for m in mutants(f)]
    random.Random(a.seed).shuffle(allm)
    if a.limit:
        allm = allm[:a.limit]
    res_path = a.out + "/results.jsonl"
    done = set()
    if os.path.exists(res_path):
        for l in open(res_path):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [m for m in allm if (m[0], m[1] + 1, m[2].strip()) not in done]
    print(len(allm), "mutants,", len(todo), "to do", flush=True)
    # shared objects of the unchanged tree
    base = a.out + "/base"
    os.makedirs(base, exist_ok=True)
    inc = ["-I" + R.REPO, "-I" + R.REPO + "/src"]
    tflags = ["g++", "-std=c++17", "-O1", "-w", "-DUTREEXO_VERIFY", "-DBOOST_TEST_DYN_LINK", *inc]
    sflags = ["clang++", *R.BASE, *R.SAN, *inc, "-I" + R.H]
    libs = R.lib_sources()
    jobs = []
    for s in libs:
        n = s.replace("/", "_")
        jobs += [[*tflags, "-c", f"{R.REPO}/{s}", "-o", f"{base}/t_{n}.o"], [*sflags, "-c", f"{R.REPO}/{s}", "-o", f"{base}/s_{n}.o"]]
    tests = sorted(glob.glob(R.REPO + "/src/test/*.cpp"))
    for s in tests:
        jobs.append([*tflags, "-c", s, "-o", f"{base}/t_test_{os.path.basename(s)}.o"])
    for s in sorted(glob.glob(R.H + "/props_*.cpp")) + [R.H + "/core.cpp", R.H + "/engine.cpp"]:
        jobs.append([*sflags, "-c", s, "-o", f"{base}/s_h_{os.path.basename(s)}.o"])
    jobs.append(["clang++", "-std=c++17", "-O2", "-c", R.H + "/refhash.cpp", "-o", base + "/s_h_refhash.o"])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for rc, o in ex.map(lambda j: sh(j, timeout=300), jobs):
            assert rc == 0, o
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    env = R.env()
    env["ASAN_OPTIONS"] += ":hard_rss_limit_mb=1500:detect_stack_use_after_return=0"
    order = [p for g in ("hash", "arith", "forest", "io", "huge", "pollard", "net") for p in R.GROUPS[g]]

    def work(k):
        w = f"{a.out}/w{k}"
        os.makedirs(w, exist_ok=True)
        while True:
            try:
                path, i, new = q.get_nowait()
            except queue.Empty:
                return
            lines = open(os.path.join(R.REPO, path)).read().split("\n")
            old = lines[i]
            lines[i] = new
            src = f"{w}/{os.path.basename(path)}"
            open(src, "w").write("\n".join(lines))
            extra = ["-I" + os.path.dirname(os.path.join(R.REPO, path))]
            n = path.replace("/", "_")
            d = {"file": path, "line": i + 1, "old": old.strip(), "new": new.strip()}
            rc, o = sh([*tflags, *extra, "-c", src, "-o", w + "/t.o"])
            if rc:
                d["result"] = "no compile"
            else:
                objs = [x for x in glob.glob(base + "/t_*.o") if x != f"{base}/t_{n}.o"]
                rc, o = sh(["g++", *objs, w + "/t.o", "-lboost_unit_test_framework", "-o", w + "/test"])
                if rc:
                    rc, o = 1, ""
                else:
                    rc, o = sh(["bash", "-c", f"ulimit -v 4000000; exec {w}/test"], cwd=w, timeout=60)
                if rc:
                    d["result"] = "tests"
                else:
                    rc, o = sh([*sflags, *extra, "-c", src, "-o", w + "/s.o"])
                    objs = [x for x in glob.glob(base + "/s_*.o") if x != f"{base}/s_{n}.o"]
                    rc, o = sh(["clang++", *R.SAN, *objs, w + "/s.o", "-o", w + "/engine"])
                    d["result"] = "survived" if rc == 0 else "no link"
                    for p in order if rc == 0 else []:
                        rc, o = sh([w + "/engine", "--prop", p, "--seed", str(a.seed), "--cases", str(R.CASES[p] // a.cases_div), "--jobs", "1",
                                    "--stats", w + "/st", "--fail", w + "/fail", "--wall", "120", "--shrink-s", "0", "--case-cpu", "10"], timeout=300, env=env)
                        if rc == 1:
                            d["result"] = "caught"
                            d["by"] = p
                            d["msg"] = o.strip().split("\n")[-1][:200]
                            break
                        if rc not in (0, 1):
                            d.setdefault("odd", []).append((p, rc))
            with lock:
                open(res_path, "a").write(json.dumps(d) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in range(a.workers):
        shutil.rmtree(f"{a.out}/w{k}", ignore_errors=True)


if __name__ == "__main__":
    main()
