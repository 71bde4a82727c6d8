#!/usr/bin/env python3
"""check.py ID [quick|thorough]       decide property ID on /repo's working tree
   check.py --replay FILE              run one recorded violation again

Builds harness/ID.cc against the header generated from /repo/src (GEN), the committed header (HDR, skipped when it is
byte-identical to GEN) and the Python binding (PY), explores, writes evidence/ID.json."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = VERIF + "/harness"
CXX = "g++"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
BASEFLAGS = ["-std=c++11", "-w", "-g1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
ASAN = "detect_leaks=0:malloc_fill_byte=190:max_malloc_fill_size=1048576:quarantine_size_mb=8:allocator_may_return_null=1:exitcode=99:handle_abort=1:symbolize=1:detect_odr_violation=0:alloc_dealloc_mismatch=0:hard_rss_limit_mb=3000"

# Which implementations a property is explored on, and extra flags.
CONF = json.load(open(H + "/checks.json"))


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def gen_header(work):
    """The header generate_include.py makes from /repo/src, as /opt/vp/build.sh does."""
    g = work + "/gen"
    os.makedirs(g + "/include")
    os.symlink(REPO + "/src", g + "/src")
    run(["/usr/bin/python3", "-B", REPO + "/generate_include.py"], cwd=g)
    return g + "/include/wisardpkg.hpp"


def pyflags():
    inc = subprocess.check_output(["/usr/bin/python3", "-m", "pybind11", "--includes"], text=True).split()
    ld = subprocess.check_output(["python3-config", "--embed", "--ldflags"], text=True).split()
    return inc, ld


def plan(pid, work, tier, only=None):
    """{backend: (compile commands, link commands, binary)}, backends skipped"""
    c = CONF[pid]
    want = [b for b in c["backends"] if only in (None, b)]
    gen = gen_header(work)
    hdr = REPO + "/include/wisardpkg.hpp"
    same = open(gen, "rb").read() == open(hdr, "rb").read()
    src = f"{H}/{pid}.cc"
    out, skipped = {}, []
    inc, ld = pyflags() if "PY" in want or "ALL" in want else ([], [])
    if "ALL" in want:                   # the three implementations as plug-ins of one process
        d = f"{work}/ALL"
        os.makedirs(d)
        jobs, links = [], []
        fl = BASEFLAGS + ["-O1"]
        for f in (src, H + "/mc.cc"):
            jobs.append([CXX, *fl, "-DMC_BACKEND_NONE", '-DMC_BACKEND_NAME="ALL"', f"-I{H}", f"-I{REPO}/src/libs", "-c", f, "-o", f"{d}/{os.path.basename(f)}.o"])
        lf = fl + ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-fno-gnu-unique", f"-I{H}"]
        for b, fs in (("GEN", [f'-DWP_HEADER="{gen}"', "-DMC_BACKEND_CPP"]), ("HDR", [f'-DWP_HEADER="{hdr}"', "-DMC_BACKEND_CPP"]), ("PY", [*inc, f"-I{REPO}/src/libs", "-DMC_BACKEND_PY"])):
            objs = [f"{d}/{b}.plug.o"]
            jobs.append([CXX, *lf, *fs, "-c", H + "/plug.cc", "-o", objs[0]])
            if b == "PY":
                jobs.append([CXX, *lf, *fs, "-c", H + "/backend.cc", "-o", d + "/PY.backend.o"])
                jobs.append([CXX, *lf, *inc, "-c", REPO + "/src/wisard_bind.cc", "-o", d + "/PY.bind.o"])
                objs += [d + "/PY.backend.o", d + "/PY.bind.o"]
            links.append([CXX, "-shared", "-Wl,-Bsymbolic-functions", *objs, *(ld if b == "PY" else []), "-o", f"{d}/{b}.so"])
        links.append([CXX, "-rdynamic", f"{d}/{pid}.cc.o", d + "/mc.cc.o", "-ldl", "-o", d + "/mc"])
        return {"ALL": (jobs, links, d + "/mc")}, skipped
    if "RACE" in want:                  # the library with a call at every memory access, as a plug-in
        d = f"{work}/RACE"
        os.makedirs(d)
        fl = BASEFLAGS + ["-O1"]
        jobs = [[CXX, *fl, "-DMC_BACKEND_NONE", '-DMC_BACKEND_NAME="RACE"', f"-I{H}", f"-I{REPO}/src/libs", "-c", f, "-o", f"{d}/{os.path.basename(f)}.o"] for f in (src, H + "/mc.cc")]
        wrap = [f"-Wl,--wrap={f}" for f in "memcpy memmove memset memcmp bcmp memchr strlen pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once".split()]
        links = []
        for b, h in (("GEN", gen),) if same else (("GEN", gen), ("HDR", hdr)):
            jobs.append(["clang++", "-std=c++11", "-g", "-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-DMC_BACKEND_CPP", '-DMC_BACKEND_NAME="RACE"',
                         f'-DWP_HEADER="{h}"', f"-I{H}", "-w", "-c", H + "/race_plug.cc", "-o", f"{d}/{b}.plug.o"])
            links.append([CXX, "-shared", "-Wl,-Bsymbolic-functions", *wrap, f"{d}/{b}.plug.o", "-o", f"{d}/{b}.so"])
        links.append([CXX, "-rdynamic", f"{d}/{pid}.cc.o", d + "/mc.cc.o", "-ldl", "-pthread", "-o", d + "/mc"])
        return {"RACE": (jobs, links, d + "/mc")}, skipped
    for b in want:
        if b == "HDR" and same and only is None:
            skipped.append("HDR")
            continue
        d = f"{work}/{b}"
        os.makedirs(d)
        jobs = []
        if b == "PY":
            san = SAN if c.get("asan_py") else []
            fl = BASEFLAGS + san + ["-Og"] + c.get("flags", []) + inc
            jobs.append([CXX, *fl, "-fPIC", "-c", REPO + "/src/wisard_bind.cc", "-o", d + "/bind.o"])
            fl = fl + ["-fvisibility=hidden", f"-I{REPO}/src/libs", "-DMC_BACKEND_PY"]
            objs, libs = [d + "/bind.o"], ld + ["-rdynamic"]
        else:
            san = SAN if c.get("asan") or tier == "thorough" and not c.get("nosan") else []
            h = gen if b == "GEN" else hdr
            fl = BASEFLAGS + san + [c.get("opt", "-O1")] + c.get("flags", []) + ["-DMC_BACKEND_CPP", f'-DWP_HEADER="{h}"']
            objs, libs = [], ["-ldl"]
        fl = fl + [f'-DMC_BACKEND_NAME="{b}"', f"-I{H}"]
        for f in (src, H + "/mc.cc", H + "/backend.cc"):
            o = f"{d}/{os.path.basename(f)}.o"
            jobs.append([CXX, *fl, "-c", f, "-o", o])
            objs.append(o)
        out[b] = (jobs, [[CXX, *san, *objs, *libs, "-o", d + "/mc"]], d + "/mc")
    return out, skipped


def build(todo):
    """Compiles everything at once; yields the backends as they get ready."""
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        jobs = {b: [ex.submit(run, j) for j in todo[b][0]] for b in todo}
        for b in sorted(todo, key=["GEN", "HDR", "PY", "ALL", "RACE"].index):
            for j in jobs[b]:
                j.result()
            for l in todo[b][1]:
                run(l)
            yield b, todo[b][2]


def env(binary, pid):
    e = dict(os.environ)
    e["PLUGS"] = os.path.dirname(binary)
    e["ASAN_OPTIONS"] = ASAN
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["MALLOC_PERTURB_"] = "165"       # memory that nobody has set is not zero
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPATH", None)
    e.update(CONF[pid].get("env", {}))
    return e


def known_findings(pid):
    """Lines 'known: property=ID key=KEY what' of known_findings.txt; 'fixed:' lines suppress nothing."""
    out = {}
    f = VERIF + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: "):
                w = l.split(None, 3)
                if w[1] == "property=" + pid and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip()
    return out


def explore(pid, tier, binary, backend, work, known, shards):
    scratch = f"{work}/scratch-{backend}"
    os.makedirs(scratch)
    kf = f"{work}/known-{backend}"
    open(kf, "w").write("".join(k + "\n" for k in known))
    out = f"{work}/{backend}.json"
    budget = 500 if tier == "quick" else 3600 * 3
    p = subprocess.run([binary, "--tier", tier, "--out", out, "--scratch", scratch, "--shards", str(shards), "--known", kf,
                        "--budget", str(budget / (2 if tier == "quick" else 1))], env=env(binary, pid), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        r = json.load(open(out))
    except (OSError, ValueError) as e:
        r = {"error": f"no result: {e}", "suites": []}
    r["rc"], r["stdout"], r["backend"] = p.returncode, p.stdout[-3000:], backend
    shutil.rmtree(scratch, ignore_errors=True)
    return r


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    if sys.argv[1:] == ["--selftest"]:      # the tools a check needs are there
        for cmd in ([CXX, "--version"], ["/usr/bin/python3", "-m", "pybind11", "--includes"], ["python3-config", "--embed", "--ldflags"]):
            run(cmd)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    try:
        return do_check(pid, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def do_check(pid, tier, work, t0):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    ev = f"{VERIF}/evidence/{pid}.json"
    if os.path.exists(ev):
        os.remove(ev)
    known = known_findings(pid)
    shards = min(8, os.cpu_count() or 4)
    runs, rc, viol, tb, skipped = [], 0, None, 0, []
    todo, skipped = plan(pid, work, tier)
    ready = build(todo)
    while True:
        t = time.time()
        try:
            b, binary = next(ready)
        except StopIteration:
            break
        except BuildError as e:
            print("build failed:\n" + str(e))
            rc = 2
            break
        tb += time.time() - t
        r = explore(pid, tier, binary, b, work, known, shards)
        runs.append(r)
        print(f"{pid} {b}: rc={r['rc']} executions={sum(s['executions'] for s in r['suites'])} steps={sum(s['steps'] for s in r['suites'])} "
              f"states={sum(s['states'] for s in r['suites'])} wall={r.get('wall_s')}s complete={r.get('complete')}")
        for s in r["suites"]:
            print(f"   {s['name']}: executions={s['executions']} steps={s['steps']} states={s['states']} choices<={s['max_choices']} rand={s['rand_answers']} {s['secs']}s{' CAPPED' if s['capped'] else ''}")
        if r.get("violation"):
            viol = r
            rc = 1
            break
        if r["rc"] != 0 or "error" in r:
            print("error:", r.get("error"), r["stdout"])
            rc = 2
            break
    suites = [(r["backend"], s) for r in runs for s in r["suites"]]
    hits = sorted({k for r in runs for k in r.get("known", [])})
    samples = []
    for b, s in suites:
        for x in s.get("samples", [])[:1]:
            samples.append({"backend": b, "suite": s["name"], "choices": x["path"], "trace": x["log"]})
    if not samples:
        samples = [{"note": "no completed execution"}]
    cov = {
        "states": sum(s["states"] for _, s in suites),
        "transitions": sum(s["steps"] for _, s in suites),
        "traces_validated_against_impl": sum(s["executions"] for _, s in suites),
        "exhaustive": bool(runs) and all(r.get("complete") for r in runs),
        "implementations": [r["backend"] for r in runs],
        "identical_implementations_skipped": skipped,
        "suites": [{"backend": b, **{k: v for k, v in s.items() if k != "samples"}} for b, s in suites],
        "bounds": CONF[pid]["bounds"],
        "samples": samples[:12],
        "explanation": "states: distinct reference-model states compared with the implementation (hashed); transitions: operations executed on the real "
                       "code; traces: complete executions of the real code, each compared with the reference model at every step.",
        "build_s": round(tb, 1),
    }
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
               "assumptions": CONF[pid].get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}, open(ev, "w"), indent=1)
    for k in hits:
        print(f"KNOWN-FINDING: property={pid} {known.get(k, k)}")
    if viol:
        v = viol["violation"]
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        name = hashlib.sha1((v["suite"] + v["path"] + viol["backend"]).encode()).hexdigest()[:10]
        path = f"{VERIF}/replays/{pid}-{name}.json"
        json.dump({"property": pid, "backend": viol["backend"], "tier": tier, **v}, open(path, "w"), indent=1)
        print(f"suite {v['suite']}, choices {v['path']}\n{v['log']}{v['key']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={path}")
    return rc


def do_replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        todo, _ = plan(v["property"], work, v["tier"], only=v["backend"])
        (_, binary), = build(todo)
        os.makedirs(work + "/scratch")
        p = subprocess.run([binary, "--tier", v["tier"], "--scratch", work + "/scratch", "--replay", v["suite"] + ":" + v["path"]], env=env(binary, v["property"]))
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
