#!/usr/bin/env python3
"""Driver of the runtime monitors:  python3 check.py <PROPERTY> [--tier quick|thorough] [--seed N]
                                    python3 check.py <PROPERTY> --case family:index     (replay one case)
                                    python3 check.py --setup                            (pre-build everything)
Builds the library sources of /repo's *current working tree* together with the monitor of the property
(content-addressed object cache in build/), runs the monitor in several shards, merges what they observed into
evidence/<PROPERTY>.json, and exits 0 / 1 (VIOLATION) / 2 (the check itself failed)."""
import sys, os, json, time, hashlib, subprocess, re, signal, shutil, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("QTT_REPO", "/repo")
TORCH = "/opt/vp/torch-site/torch"
BUILD = os.environ.get("QTT_BUILD", os.path.join(VERIF, "build"))
NPROC = min(8, os.cpu_count() or 1)

ALL_LIB = ["MPT", "LinearAlgebra", "dimension_manip", "torch_formatter", "dmrg", "operators", "models",
           "any_quantity", "groups", "btensor", "tensorgdot", "btensor_linalg", "dmrg_logger"]


def library_sources():
    """The sources the repository's own build puts in the library."""
    try:
        t = open(os.path.join(REPO, "sources", "CMakeLists.txt")).read()
        names = re.findall(r"([\w./-]+)\.cpp", re.search(r"set\(SOURCE_LIST([^)]*)\)", t).group(1))
        if names:
            return names
    except (OSError, AttributeError):
        pass
    return ALL_LIB


CQ_LIB = ["any_quantity", "groups"]

# property -> (monitor translation units, library translation units, flavour, uses torch)
PROPS = json.load(open(os.path.join(VERIF, "monitors.json")))
LIBSETS = {"none": [], "cq": CQ_LIB, "all": library_sources()}

BASE = ["-std=gnu++17", "-fPIC", "-DFMT_HEADER_ONLY=1", "-DFMT_DEPRECATED_OSTREAM", "-D_GLIBCXX_USE_CXX11_ABI=0",
        "-DDOCTEST_CONFIG_DISABLE", "-w",
        "-I%s/extern/boost" % REPO, "-I%s/extern/doctest" % REPO, "-I%s/include" % REPO, "-I%s/harness" % VERIF,
        "-isystem", TORCH + "/include", "-isystem", TORCH + "/include/torch/csrc/api/include"]
FLAVOURS = {
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-fsanitize=address,undefined", "-fno-sanitize=vptr,bool,enum", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}
LINK = {"plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_cache = {}


def tree_hash(*dirs):
    k = dirs
    if k not in _cache:
        h = hashlib.sha256()
        for d in dirs:
            for root, ds, fs in sorted(os.walk(d)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".tpp", ".ipp", ".inl")):
                        p = os.path.join(root, f)
                        h.update(os.path.relpath(p, d).encode() + b"\0")
                        h.update(open(p, "rb").read())
        _cache[k] = h.hexdigest()
    return _cache[k]


def compile_one(src, flavour, harness, log):
    flags = BASE + FLAVOURS[flavour]
    if harness:  # the monitors themselves need no optimisation
        flags = [("-O0" if f == "-O1" and flavour == "plain" else f) for f in flags]
    deps = [tree_hash(os.path.join(REPO, "include"))]
    if harness:
        deps.append(tree_hash(os.path.join(VERIF, "harness")))
    key = sha("v1", " ".join(flags), src, open(src, "rb").read(), *deps)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        t = time.time()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        log.append("%.1fs %s" % (time.time() - t, os.path.basename(src)))
        if r.returncode != 0:
            raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[:2500]))
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj


def weight(s):
    b = os.path.basename(s)
    return {"btensor.cpp": 9, "btensor_linalg.cpp": 6, "MPT.cpp": 5, "dmrg.cpp": 5}.get(b, 8 if "/harness/" in s else 3)


def prune():
    d = os.path.join(BUILD, "obj")
    fs = sorted(((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)), reverse=True)
    total = 0
    for m, f in fs:
        total += os.path.getsize(f)
        if total > 6e9:
            os.unlink(f)


def runs_of(prop):
    """How the monitor of a property is run: by default once, uninstrumented."""
    return PROPS[prop].get("runs", [{"flavour": "plain"}])


def flavours(prop):
    return sorted({r["flavour"] for r in runs_of(prop)})


def build_many(props):
    """Compile everything the given properties need; returns {(prop, flavour): exe}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = {}
    need = {}
    for p in props:
        c = PROPS[p]
        srcs = [(os.path.join(VERIF, "harness", s), True) for s in ["main.cpp"] + c["monitor"]]
        for l in LIBSETS[c["lib"]]:
            f = os.path.join(REPO, "sources", l + ".cpp")
            if os.path.exists(f):
                srcs.append((f, False))
        for fl in flavours(p):
            # monitors can be left uninstrumented: the library comes first for the linker, so that what both instantiate
            # from the headers is the instrumented one
            only = c.get("instrumented")
            need[p, fl] = [(s, "plain" if h and only is not None and os.path.basename(s) not in only else fl, h)
                           for s, h in sorted(srcs, key=lambda x: x[1])]
            for j in need[p, fl]:
                jobs[j] = None
    log = []
    order = sorted(jobs, key=lambda j: -weight(j[0]))
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {j: ex.submit(compile_one, j[0], j[1], j[2], log) for j in order}
        for j, f in futs.items():
            jobs[j] = f.result()
    exes = {}
    for p, fl in need:
        objs = [jobs[j] for j in need[p, fl]]
        exe = os.path.join(BUILD, "bin", p + "-" + sha(fl, PROPS[p].get("link", ""), *objs))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = ["g++"] + LINK[fl] + ["-o", tmp] + objs
            if PROPS[p].get("torch", True):
                cmd += ["-L" + TORCH + "/lib", "-Wl,--no-as-needed", "-ltorch_cpu", "-lc10", "-Wl,--as-needed", "-Wl,-rpath," + TORCH + "/lib"]
            cmd += ["-lpthread", "-ldl"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise CheckError("link of %s failed:\n%s" % (p, r.stdout.decode(errors="replace")[-4000:]))
            os.rename(tmp, exe)
        exes[p, fl] = exe
    prune()
    return exes, log


SAN = re.compile(r"(==\d+== (?:Invalid|Conditional|Use of uninit|Syscall|Source and dest|Argument|Mismatched|Process terminating)[^\n]*|ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                 r"ERROR: LeakSanitizer[^\n]*|Assertion '[^\n]*|terminate called[^\n]*|what\(\):[^\n]*)")


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    return {e["key"]: e for e in json.load(open(path)).get("known", []) if e["property"] == prop}


def env_for(flavour, run):
    e = dict(os.environ)
    if run.get("wrapper") == "valgrind":
        e.update(ATEN_CPU_CAPABILITY="default", MKL_ENABLE_INSTRUCTIONS="SSE4_2")
    e.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TORCH_SHOW_CPP_STACKTRACES="0")
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:detect_container_overflow=0:exitcode=66:detect_odr_violation=0:allocator_may_return_null=1:" \
                        "alloc_dealloc_mismatch=0:detect_stack_use_after_return=1:quarantine_size_mb=64"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    supp = os.path.join(VERIF, "harness", "tsan.supp")
    e["TSAN_OPTIONS"] = "ignore_noninstrumented_modules=1:exitcode=66:halt_on_error=0:second_deadlock_stack=1:suppressions=" + supp
    return e


VALGRIND = ["valgrind", "-q", "--error-exitcode=67", "--exit-on-first-error=yes", "--num-callers=25", "--error-limit=no",
            "--suppressions=" + os.path.join(VERIF, "harness", "memcheck.supp")]


def run_shards(prop, exe, tier, seed, case, work, cfg, run):
    n = 1 if case else cfg.get("shards", NPROC)
    # a run of a sample of the cases: more shards than are run
    of = 1 if case else n * run.get("sample", {}).get(tier, 1)
    res = []

    def one(i):
        fl = run["flavour"]
        skip = []
        results = []
        start = time.time()
        while True:
            out = os.path.join(work, "shard%d.%d.jsonl" % (i, len(skip)))
            cur = os.path.join(work, "shard%d.cur" % i)
            cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--scale", str(cfg.get("scale", {}).get(tier, 1)), "--shard", "%d/%d" % (i, of), "--out", out,
                   "--cur", cur]
            if case:
                cmd += ["--case", case]
            if skip:
                cmd += ["--resume-after", skip[-1]]
            if run.get("wrapper") == "valgrind":
                cmd = VALGRIND + cmd
            if run.get("setarch"):
                cmd = ["setarch", os.uname().machine, "-R"] + cmd
            if os.path.exists(cur):
                os.unlink(cur)
            err = os.path.join(work, "shard%d.%d.err" % (i, len(skip)))
            with open(err, "wb") as ef:
                p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env_for(fl, run), start_new_session=True)
                limit = run.get("case_limit", 200)
                hang = None
                while True:
                    try:
                        p.wait(timeout=1.0)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    # a case that burns `limit` seconds of CPU (not wall time: the machine may be loaded) never ends
                    try:
                        st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                        cpu = (int(st[11]) + int(st[12])) / os.sysconf("SC_CLK_TCK")
                        c = open(cur).read().split("\t")
                        if len(c) >= 2 and cpu - float(c[1]) > limit:
                            hang = c[0]
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            break
                    except (OSError, IndexError, ValueError):
                        pass
            lines = []
            if os.path.exists(out):
                for l in open(out):
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
            done = any(l.get("t") == "done" for l in lines)
            results += lines
            text = open(err, "rb").read().decode(errors="replace")
            if done and (p.returncode == 0 or "LeakSanitizer has encountered a fatal error" in text):
                if fl == "asan":
                    results.append({"t": "counters", "c": {"leak checks unavailable" if p.returncode else "leak checks at exit": 1}})
                break
            curcase = None
            try:
                curcase = open(cur).read().split("\t")[0]
            except (OSError, IndexError):
                pass
            m = SAN.findall(text)
            if curcase is None or curcase == "-":
                if done and m:  # report at exit (leak / race summary)
                    results.append({"t": "viol", "case": "exit", "key": "exit", "msg": m[0], "log": text[-5000:]})
                    break
                results.append({"t": "error", "msg": "monitor ended with status %s outside of a case\n%s" % (p.returncode, text[-3000:])})
                break
            fam = curcase.split(":")[0]
            if hang:
                results.append({"t": "viol", "case": curcase, "key": "hang:" + fam,
                                "msg": "no answer after %d s of CPU time" % limit, "log": text[-3000:]})
            else:
                results.append({"t": "viol", "case": curcase, "key": "crash:" + fam,
                                "msg": "process ended with status %s: %s" % (p.returncode, "; ".join(m[:3]) or text[-500:]),
                                "log": text[-6000:]})
            skip.append(curcase)
            if case or len(skip) >= 3 or time.time() - start > 500:
                break
        return results

    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            res += r
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        t = time.time()
        exes, log = build_many(sorted(PROPS))
        print("setup: %d monitors built in %.0f s" % (len(exes), time.time() - t))
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    case = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        elif a[i] == "--case": case = a[i + 1]; i += 2
        elif a[i] == "--replay":
            r = json.load(open(a[i + 1])); seed, tier, case = r["seed"], r["tier"], r["case"]; i += 2
        else: print("unknown argument", a[i]); return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    cfg = PROPS[prop]
    try:
        exes, log = build_many([prop])
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e)); return 2
    tb = time.time() - t0
    work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    per_run = []
    try:
        res = []
        for k, run in enumerate(runs_of(prop)):
            w = os.path.join(work, str(k))
            os.makedirs(w)
            r = run_shards(prop, exes[prop, run["flavour"]], tier, seed, case, w, cfg, run)
            per_run.append({"run": run, "cases": sum(x["evals"] for x in r if x["t"] == "fam"),
                            "seconds": round(time.time() - t0 - tb - sum(x["seconds"] for x in per_run), 1)})
            res += r
    finally:
        shutil.rmtree(work, ignore_errors=True)
    errors = [r for r in res if r["t"] == "error"]
    known = known_findings(prop)
    fams, counters, hashes, samples = {}, {}, set(), []
    nontrivial_dups = 0
    truncated = []
    for r in res:
        if r["t"] == "fam":
            f = fams.setdefault(r["name"], {"evaluations": 0, "checks": 0})
            f["evaluations"] += r["evals"]; f["checks"] += r["checks"]
            hashes.update(r["hashes"])
            if len([s for s in samples if s["family"] == r["name"]]) < 2:
                samples += [{"family": r["name"], **s} for s in r["samples"][:1]]
            if r.get("truncated"): truncated.append(r["name"])
        elif r["t"] == "counters":
            for k, v in r["c"].items():
                counters[k] = counters.get(k, 0) + v
    viols = [r for r in res if r["t"] == "viol"]
    new, kn = [], {}
    for v in viols:
        if v["key"] in known: kn.setdefault(v["key"], v)
        else: new.append(v)
    for k, v in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k]["what"], k))
    reported = set()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for v in new:
        if v["key"] in reported and len(reported) > 0: continue
        if len(reported) >= 8: break
        reported.add(v["key"])
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["case"] + "-" + v["key"])[:100]))
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["case"], "key": v["key"], "msg": v["msg"],
                   "log": v.get("log", ""),
                   "rerun": "python3 check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        print("  [%s] key=%s: %s" % (v["case"], v["key"], re.sub(r"\nException raised from.*?(\|\||$)", " || ", v["msg"], flags=re.S)[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for e in errors: print("CHECK-ERROR property=%s %s" % (prop, e["msg"]))
    evals = sum(f["evaluations"] for f in fams.values())
    wall = time.time() - t0
    if not case:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                           "rule": cfg["rule"], "samples": samples[:24],
                           "families": fams, "observed_events": dict(sorted(counters.items())),
                           "monitor_assertions": sum(f["checks"] for f in fams.values()),
                           "truncated_by_time": sorted(set(truncated)),
                           "known_findings_observed": sorted(kn),
                           "runs": per_run, "build_s": round(tb, 1)},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.rename(p + ".tmp", p)
    print("%s: cache %s; %d cases, %d distinct non-trivial, %d assertions, build %.0f s, total %.0f s, %d violation(s), %d known"
          % (prop, "hit" if not log else "%d compiled" % len(log), evals, len(hashes), sum(f["checks"] for f in fams.values()), tb, wall, len(new), len(kn)))
    if new: return 1
    if errors: return 2
    if evals == 0: print("CHECK-ERROR nothing was evaluated"); return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
