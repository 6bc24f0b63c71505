#!/usr/bin/env python3
"""Run the solver-based check of one property: check.py P01 [--tier quick|thorough]

1. lowers /repo's current sources and the property's harness to LLVM IR,
2. executes every harness entry symbolically with engine/fgse (SMT decides each assertion),
3. replays every counterexample against the real code (g++, ASan+UBSan / valgrind, real simdjson),
4. validates sample paths of the encoding natively, and writes evidence/<id>.json.
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import sys, os, json, time, hashlib, subprocess, shutil, tempfile, re, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", "/tmp/vp-cache")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import checks as C

OPTIONS = {"FASTGLTF_USE_CUSTOM_SMALLVECTOR": 0, "FASTGLTF_USE_64BIT_FLOAT": 0, "FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES": 1, "FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES": 1}
POOL = ["-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0"]
NOPOOL = ["-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=1"]
# The build configurations of the library; "" is the one the repository's own build uses
VARIANTS = {"": {}, "small": {"FASTGLTF_USE_CUSTOM_SMALLVECTOR": 1}, "double": {"FASTGLTF_USE_64BIT_FLOAT": 1}, "nopool": {"pool": False}, "all": {"FASTGLTF_USE_CUSTOM_SMALLVECTOR": 1, "FASTGLTF_USE_64BIT_FLOAT": 1, "pool": False}}
def defs(variant):
    return ["-DNDEBUG"] + ["-D%s=%d" % (k, VARIANTS[variant].get(k, d)) for k, d in OPTIONS.items()]
def has_pool(variant):
    return VARIANTS[variant].get("pool", True)
INC = ["-I" + REPO + "/include", "-I" + VERIF + "/harness"]
IRF = ["clang++-18", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-fno-pic", "-fno-pie",
       "-w", "-emit-llvm", "-c"] + INC
UBF = ["-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,float-cast-overflow", "-fsanitize-trap=all"]
RTF = ["-fno-builtin", "-fno-access-control"]
REPO_SRC = ["fastgltf.cpp", "base64.cpp", "io.cpp"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def repo_headers():
    r = []
    for d, _, fs in os.walk(REPO + "/include"):
        r += [os.path.join(d, f) for f in fs]
    return r

class BuildError(Exception):
    pass

_locks = {}
_lk = threading.Lock()
def cached(key, suffix, build):
    """build(tmp_path) -> creates the file; content-hash keyed cache (never stale)."""
    os.makedirs(CACHE, exist_ok=True)
    path = os.path.join(CACHE, key + suffix)
    with _lk:
        l = _locks.setdefault(path, threading.Lock())
    with l:
        if os.path.exists(path):
            return path
        tmp = path + ".tmp%d" % os.getpid()
        build(tmp)
        os.replace(tmp, path)
    return path

def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("exec.cpp", "exec.hpp", "builtins.inc", "expr.cpp", "expr.hpp", "build.sh")]
    def b(tmp):
        d = tempfile.mkdtemp(prefix="vp-eng-")
        r = sh(["bash", os.path.join(VERIF, "engine", "build.sh"), d])
        if r.returncode or not os.path.exists(d + "/fgse"):
            raise BuildError("engine build failed:\n" + r.stdout[-3000:])
        shutil.copy(d + "/fgse", tmp); shutil.rmtree(d)
    return cached(fhash(src), ".fgse", b)

def build_ir(path, flags, extra_deps=(), fs=False, variant=""):
    flags = defs(variant) + (POOL if has_pool(variant) else NOPOOL) + flags
    if fs:
        flags = ["-I" + VERIF + "/harness/fs"] + flags; extra_deps = list(extra_deps) + [VERIF + "/harness/fs/fstream"]
    deps = [path] + repo_headers() + [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")] + list(extra_deps)
    def b(tmp):
        r = sh(IRF + flags + [path, "-o", tmp])
        if r.returncode:
            raise BuildError("lowering of %s failed:\n%s" % (path, r.stdout[-4000:]))
    return cached(fhash(deps, " ".join(IRF + flags)), ".bc", b)

def build_obj(path, flags, variant=""):
    deps = [path] + repo_headers() + [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")]
    cmd = ["g++", "-std=c++17", "-g1", "-w"] + defs(variant) + INC + flags
    def b(tmp):
        r = sh(cmd + ["-c", path, "-o", tmp])
        if r.returncode:
            raise BuildError("native build of %s failed:\n%s" % (path, r.stdout[-4000:]))
    return cached(fhash(deps, " ".join(cmd)), ".o", b)

NATIVE = {
    "asan": ["-O0", "-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,float-cast-overflow,return,unreachable", "-fno-sanitize-recover=all"],
    "plain": ["-O1"],
}
def build_native(harness, kind, pool, variant=""):
    pool = pool and has_pool(variant)
    fl = NATIVE[kind] + (POOL if pool else NOPOOL)
    srcs = [os.path.join(REPO, "src", s) for s in REPO_SRC] + [os.path.join(VERIF, "harness", h) for h in (harness, "native.cpp")]
    with ThreadPoolExecutor(5) as ex:
        objs = list(ex.map(lambda p: build_obj(p, fl, variant), srcs))
    def b(tmp):
        r = sh(["g++"] + fl + ["-rdynamic"] + objs + ["-lsimdjson", "-ldl", "-o", tmp])
        if r.returncode:
            raise BuildError("native link failed:\n" + r.stdout[-3000:])
    return cached(fhash(objs, " ".join(fl)), ".exe", b)

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1:strict_memcmp=0",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")

def write_model(path, model):
    with open(path, "w") as f:
        for k, v in model.items():
            f.write("%s %s\n" % (k, v))

def run_native(exe, entry, params, files, timeout=120, wrap=()):
    cwd = os.path.dirname(os.path.abspath(files[0]))
    cmd = list(wrap) + [exe, entry] + ["--param=%s=%s" % kv for kv in params.items()] + files
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=timeout, cwd=cwd)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

def confirm(work, harness, entry, params, v, idx, variant=""):
    """Replay a counterexample natively. Returns (confirmed, how, output)."""
    f = os.path.join(work, "cex_%s_%d.txt" % (entry, idx))
    write_model(f, v["model"])
    tries = []
    if "uninitialised" in v["msg"]:
        exe = build_native(harness, "plain", False, variant)
        rc, out = run_native(exe, entry, params, [f], wrap=["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes"], timeout=300)
        tries.append(("valgrind", rc, out))
        if rc == 97 or rc == 77 or rc < 0:
            return True, "valgrind", out
        # an assertion may fail instead, depending on what the memory held
    for pool in (True, False):
        try:
            exe = build_native(harness, "asan", pool, variant)
        except BuildError as e:
            tries.append(("asan pool=%d does not build" % pool, 76, str(e)[-500:])); continue
        rc, out = run_native(exe, entry, params, [f])
        tries.append(("asan pool=%d" % pool, rc, out))
        if rc == 76:
            continue
        if rc != 0:
            return True, "asan+ubsan pool=%d exit=%d" % (pool, rc), out
    exe = build_native(harness, "plain", True, variant)
    rc, out = run_native(exe, entry, params, [f])
    tries.append(("plain", rc, out))
    if rc not in (0, 76, 124):
        return True, "plain exit=%d" % rc, out
    return False, "; ".join("%s rc=%d" % (a, b) for a, b, _ in tries), tries[-1][2]

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def match_known(known, pid, entry, v):
    for k in known:
        if k.get("status") != "known" or k["property"] != pid:
            continue
        if k.get("entry") and not re.fullmatch(k["entry"], entry):
            continue
        if not re.search(k["message"], v["msg"]):
            continue
        if k.get("site") and not any(re.search(k["site"], l) for l in [v["func"]] + v["stack"]):
            continue
        ok = True
        for name, want in k.get("input", {}).items():
            got = v["model"].get(name)
            if got is None or not eval(want, {"__builtins__": {}}, {"v": int(got, 0)}):
                ok = False
        if ok:
            return k
    return None

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        try:
            build_engine()
            build_ir(os.path.join(VERIF, "harness", "runtime.cpp"), RTF)
        except BuildError as e:
            print(e); sys.exit(1)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = C.CHECKS[pid]
    harness = chk["harness"]
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    lines = []
    try:
        rc = run(pid, chk, harness, tier, seed, t0, work, verbose, only)
    except BuildError as e:
        # The tree under test (or a harness against it) does not compile: nothing was decided.
        print("check %s: cannot encode the current tree: %s" % (pid, e))
        evidence(pid, tier, seed, t0, {"explanation": "the current tree could not be lowered: %s" % str(e)[:2000], "states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, [], 0)
        rc = 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def evidence(pid, tier, seed, t0, cov, assumptions, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": nviol}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

def run(pid, chk, harness, tier, seed, t0, work, verbose, only):
    entries = [e for e in chk["entries"] if (tier == "thorough" or not e.get("thorough_only")) and (not only or only in (e["name"], e.get("id")))]
    units = chk.get("units", REPO_SRC)
    fs = chk.get("fstream", False)
    ex = ThreadPoolExecutor(12)
    fe = ex.submit(build_engine)
    frt = ex.submit(build_ir, os.path.join(VERIF, "harness", "runtime.cpp"), RTF)
    shape = lambda e: (e.get("harness", harness), e.get("variant", ""))
    shapes = sorted(set(shape(e) for e in entries))
    fu, fh, fn = {}, {}, {}
    for h, var in shapes:
        for s in units:
            if (s, var) not in fu:
                fu[s, var] = ex.submit(build_ir, os.path.join(REPO, "src", s), ["-include", os.path.join(VERIF, "harness", "shim.hpp")] + UBF, (), fs, var)
        fh[h, var] = ex.submit(build_ir, os.path.join(VERIF, "harness", h), UBF, (), fs, var)
    for h, var in shapes:
        fn[h, var] = ex.submit(build_native, h, "asan", True, var)  # for replays, in the background
    engine = fe.result(); mods = {}
    for i, (h, var) in enumerate(shapes):
        mods[h, var] = os.path.join(work, "m%d.bc" % i)
        r = sh(["llvm-link-18", frt.result(), fh[h, var].result()] + [fu[s, var].result() for s in units] + ["-o", mods[h, var]])
        if r.returncode:
            raise BuildError("link: " + r.stdout[-2000:])
    for e in entries:
        e.setdefault("id", e["name"])
    t_build = time.time() - t0
    qtime = chk.get("time", 60) if tier == "quick" else chk.get("time_thorough", 420)

    def go(e):
        out = os.path.join(work, e["id"] + ".json")
        params = dict(e.get("params", {}))
        if tier == "thorough":
            params.update(e.get("thorough", {}))
        limit = e.get("time", qtime)
        if tier == "quick":  # the whole check stays well below its 900 s
            limit = min(limit, max(15, int(560 - (time.time() - t0))))
        cmd = [engine, mods[shape(e)], "--entry=" + e["name"], "--out=" + out, "--time=%d" % limit, "--samples=%d" % (6 if tier == "quick" else 24)]
        cmd += ["--param=%s=%s" % kv for kv in params.items()] + e.get("flags", [])
        if tier == "thorough":
            cmd += ["--query-time=60", "--final-time=240"]
        p = sh(["timeout", "-s", "KILL", str(limit + (200 if tier == "quick" else 900))] + cmd)
        try:
            res = json.load(open(out))
        except Exception:
            res = {"entry": e["name"], "error": p.stdout[-1500:] + " rc=%d" % p.returncode, "violations": [], "samples": [], "incomplete": {"engine failure: " + p.stdout[-300:]: 1}, "reach": {}, "paths": 0, "functions": [], "asserted": []}
        res["params"] = params
        res["engine_log"] = p.stdout[-9000:]
        return e, res
    ex2 = ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "7")))
    order = sorted(entries, key=lambda e: -e.get("weight", 1))
    results = list(ex2.map(go, order))
    known = load_known()
    confirmed, unconfirmed, knownhits = [], [], {}
    exes, nat_err = {}, ""
    for k in shapes:
        try:
            exes[k] = fn[k].result()
        except BuildError as e:
            exes[k] = None; nat_err = str(e)
    idx = 0
    for e, res in results:
        for v in res["violations"]:
            k = match_known(known, pid, e["name"], v)
            if k:
                knownhits.setdefault(k["id"], []).append((e["name"], v)); continue
            idx += 1
            if e.get("no_replay"):
                confirmed.append((e, res, v, "solver proof over the reals; " + e["no_replay"], "")); continue
            if len([1 for c in confirmed if c[0]["id"] == e["id"]]) >= 6:
                continue  # enough confirmed witnesses of this entry
            if exes[shape(e)] is None:
                unconfirmed.append((e["id"], v, "native build failed: " + nat_err[:500])); continue
            ok, how, out = confirm(work, shape(e)[0], e["name"], res["params"], v, idx, shape(e)[1])
            (confirmed.append((e, res, v, how, out)) if ok else unconfirmed.append((e["id"], v, how + "\n" + out[-600:])))
    # translator validation: sample paths of the encoding, run natively
    validated, mismatches, nsamp = 0, [], 0
    samples = []
    if any(exes.values()):
        def val(er):
            e, res = er
            if e.get("no_replay") or not res["samples"] or not exes[shape(e)]:
                return er, None, []
            files = []
            for i, s in enumerate(res["samples"]):
                f = os.path.join(work, "s_%s_%d.txt" % (e["id"], i)); write_model(f, s["model"]); files.append(f)
            if len(files) == 1:
                files = files * 2
            rc, out = run_native(exes[shape(e)], e["name"], res["params"], files)
            return er, out, files
        for (e, res), out, files in ex.map(val, results):
            if out is None:
                continue
            blocks = re.split(r"^FILE .*\n", out, flags=re.M)[1:]
            for s, b in zip(res["samples"], blocks):
                nsamp += 1
                reach = set(re.findall(r"^REACH (.*)$", b, flags=re.M)); obs = re.findall(r"^OBS (.*)$", b, flags=re.M)
                if "DONE" in b and re.search(r"^EXIT 0", b, flags=re.M) and reach == set(s["reach"]) and all(o in obs for o in s["obs"]):
                    validated += 1
                else:
                    mismatches.append({"entry": e["id"], "model": s["model"], "reach": s["reach"], "native": b[-500:]})
    viol_lines = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for i, (e, res, v, how, out) in enumerate(confirmed):
        rp = os.path.join(rdir, "%s-%d.json" % (pid, i))
        json.dump({"property": pid, "harness": shape(e)[0], "variant": shape(e)[1], "entry": e["name"], "params": res["params"], "message": v["msg"], "function": v["func"], "stack": v["stack"], "input": v["model"],
                   "confirmed_by": how, "native_output": out[-4000:], "replay_with": "python3 %s/bin/replay.py %s" % (VERIF, rp)}, open(rp, "w"), indent=1)
        viol_lines.append("VIOLATION property=%s replay=%s  [%s: %s in %s; confirmed by %s]" % (pid, rp, e["id"], v["msg"], v["func"][:100], how))
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    inc = {}
    for e, r in results:
        for k, n in r["incomplete"].items():
            inc[e["id"] + ": " + k] = n
    vac = []
    for e, r in results:
        for l in e.get("reach", []):
            if not r["reach"].get(l):
                vac.append("%s: %s never reached" % (e["id"], l))
    fns = sorted(set(f for _, r in results for f in r["functions"]))
    cov = {
        "states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": validated,
        "samples": [{"entry": e["id"], "path_model": s["model"], "reached": s["reach"]} for e, r in results for s in r["samples"][:2]][:12],
        "exhaustive": not inc and not vac,
        "entries": {e["id"]: {"bounds": e.get("bounds", chk.get("bounds", "")), "params": r["params"], "paths": r["paths"], "forks": r.get("forks", 0), "assertions_checked": r.get("asserts", 0),
                                "memory_accesses_checked": r.get("memory_checks", 0), "queries": r.get("queries", 0), "unsat": r.get("unsat", 0), "sat": r.get("sat", 0), "unknown": r.get("unknown", 0),
                                "solver_s": r.get("solver_s", 0), "max_query_s": r.get("max_query_s", 0), "wall_s": r.get("wall_s", 0), "reach": r["reach"], "assertions": r["asserted"], "incomplete": r["incomplete"], "error": r.get("error")} for e, r in results},
        "paths": tot("paths"), "queries_discharged": tot("unsat"), "queries": tot("queries"), "solver_s": round(tot("solver_s"), 3), "undecided": tot("unknown"),
        "functions_encoded": fns, "incomplete": inc, "vacuity": vac, "sample_paths_run_natively": nsamp, "native_mismatches": mismatches[:5],
        "unconfirmed_counterexamples": [{"entry": a, "msg": v["msg"], "func": v["func"], "model": v["model"], "why": w} for a, v, w in unconfirmed[:10]],
        "known_findings_seen": {k: len(v) for k, v in knownhits.items()}, "encoding_build_s": round(t_build, 1),
        "explanation": "bounded symbolic execution of LLVM IR regenerated from the current tree; every assertion and memory access decided by Z3 over all values within the bounds",
    }
    evidence(pid, tier, seed, t0, cov, C.ASSUMPTIONS + chk.get("assumptions", []), len(confirmed))
    for k in known:
        if k["property"] == pid and k.get("status") == "known" and k["id"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d entries, %d paths, %d instructions, %d queries (%d unsat), solver %.1fs, %d/%d sample paths validated natively, wall %.1fs%s" % (
        pid, tier, len(results), tot("paths"), tot("instructions"), tot("queries"), tot("unsat"), tot("solver_s"), validated, nsamp, time.time() - t0,
        "" if not inc else ", %d incomplete" % sum(inc.values())))
    if verbose:
        for e, r in results:
            print("  ", e["id"], "paths", r["paths"], "asserts", r.get("asserts"), "q", r.get("queries"), "solver %.1f wall %.1f" % (r.get("solver_s", 0), r.get("wall_s", 0)), "reach", r["reach"], "inc", r["incomplete"], r.get("error", ""))
            if r["engine_log"].strip():
                print("     log:", r["engine_log"].strip()[-6000:])
        for m in mismatches[:6]:
            print("   MISMATCH", json.dumps(m)[:1500])
    if verbose or unconfirmed:
        for a, v, w in unconfirmed:
            print("   UNCONFIRMED", a, v["msg"], v["func"][:120], json.dumps(v["model"])[:400], w if verbose else w[:100])
            if verbose:
                print("      ", "\n       ".join(v["stack"][:6]))
    if verbose:
        for e, res, v, how, out in confirmed:
            print("   CONFIRMED", e["name"], v["msg"], "count", v["count"], "|", how); print("      ", "\n       ".join(v["stack"][:6])); print("       model", json.dumps(v["model"])[:700])
    if vac:
        print("   vacuity:", vac)
    for l in viol_lines:
        print(l)
    return 1 if viol_lines else 0

if __name__ == "__main__":
    main()
