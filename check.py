#!/usr/bin/env python3
"""Decide one property: compile its contracts (harness/<id>*.cc) together with /repo's current
sources to LLVM IR, generate and discharge every proof obligation, replay refutations natively."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
INC = REPO + "/code/include"
ENGINE = V + "/build/vfengine"
CXX, CC, LINK, OPT, NM = "clang++-18", "clang-18", "llvm-link-18", "opt-18", "llvm-nm-18"
PASSES = "internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def parse(path):
    """harness directives: sources and per-function options"""
    t = open(path).read()
    src = []
    for m in re.finditer(r"^// vf-src:(.*)$", t, re.M): src += m.group(1).split()
    opts = {}
    for m in re.finditer(r"^// vf-opt (\w+):(.*)$", t, re.M):
        opts.setdefault(m.group(1), {}).update(dict(x.split("=", 1) if "=" in x else (x, "1") for x in m.group(2).split()))
    fns = re.findall(r"^VC\((\w+)\)", t, re.M)
    cov = {}
    parts = re.split(r"^VC\((\w+)\)", t, flags=re.M)
    for i in range(1, len(parts), 2): cov[parts[i]] = sorted(set(re.findall(r'vf_cover\("([^"]*)"\)', parts[i + 1])))
    return src, opts, fns, cov

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"): tier = a
        elif a == "-v": verbose = True
        else: only = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("VF_BUDGET", "840" if tier == "thorough" else "420"))
    if not os.path.exists(ENGINE): sh(["make", "-C", V + "/engine", "-j8"])
    work = tempfile.mkdtemp(prefix="vf_" + pid + "_")
    try: rc = run(pid, tier, seed, only, verbose, work, t0, budget)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, only, verbose, work, t0, budget):
    files = sorted(f for f in os.listdir(V + "/harness") if re.match(pid.lower() + r"[a-z_]*\.cc$", f))
    D = ["-DVF_THOROUGH=1"] if tier == "thorough" else []
    F = ["-std=c++17", "-O1", "-ffp-contract=off", "-Xclang", "-disable-llvm-passes", "-include", V + "/rt/vf_config.h", "-D__NO_CTYPE", "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,return,bounds,float-cast-overflow", "-fsanitize-trap=all", "-fno-threadsafe-statics",
         "-gline-tables-only", "-I" + INC, "-I" + V + "/rt", "-I" + V + "/harness", "-fno-access-control", "-w", "-c", "-emit-llvm"] + D
    ex = cf.ThreadPoolExecutor(8)
    notes, jobs = [], []
    objs = {}
    def comp(cmd, o):
        r = sh(cmd)
        return (r.returncode == 0 and os.path.exists(o)), r.stdout
    futs = {}
    meta = {}
    rtbc = work + "/rt.bc"
    futs["rt"] = ex.submit(comp, [CC, "-O1", "-fno-builtin", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-c", "-emit-llvm", V + "/rt/libc_model.c", "-o", rtbc], rtbc)
    rtxx = work + "/rtxx.bc"
    futs["rtxx"] = ex.submit(comp, [CXX] + F + [V + "/rt/libstdcxx_model.cc", "-o", rtxx], rtxx)
    srcs = set()
    for f in files:
        meta[f] = parse(V + "/harness/" + f)
        srcs.update(meta[f][0])
        o = work + "/" + f + ".bc"
        futs[f] = ex.submit(comp, [CXX] + F + [V + "/harness/" + f, "-o", o], o)
    for s in srcs:
        o = work + "/src_" + s + ".bc"
        futs["src_" + s] = ex.submit(comp, [CXX] + F + [REPO + "/code/src/" + s + ".cc", "-o", o], o)
    res = {k: v.result() for k, v in futs.items()}
    broken = []
    for k, (ok, txt) in res.items():
        if not ok: broken.append("does not compile: " + k + "\n" + txt[-2000:])
    def link(f):
        src = meta[f][0]
        if not (res[f][0] and res["rt"][0] and res["rtxx"][0] and all(res["src_" + s][0] for s in src)): return None
        l, o = work + "/" + f + ".l.bc", work + "/" + f + ".o.bc"
        mods = [work + "/" + f + ".bc", rtbc, rtxx] + [work + "/src_" + s + ".bc" for s in src]
        r = sh([LINK] + mods + ["-o", l])
        if r.returncode: return None if not broken.append("link " + f + "\n" + r.stdout[-1000:]) else None
        keep = ",".join(meta[f][2]) + ",vf_errno,memcmp,bcmp,strlen,memchr,strcmp,isdigit"
        stubs = re.findall(r"\b(vfstub_\w+)", sh([NM, "--defined-only", work + "/" + f + ".bc"]).stdout)
        if stubs: keep += "," + ",".join(stubs) + "," + ",".join(x[7:] for x in stubs)
        def opt(): return sh([OPT, "-passes=" + PASSES, "-internalize-public-api-list=" + keep, l, "-o", o])
        r = opt()
        if r.returncode == 0 and re.search(r" U _ZN?K?\w*4swoc", sh([NM, "-u", o]).stdout): # code moved to a source not listed
            more = [work + "/src_" + s + ".bc" for s in other_sources(f, src) if (os.path.exists(work + "/src_" + s + ".bc") or comp([CXX] + F + [REPO + "/code/src/" + s + ".cc", "-o", work + "/src_" + s + ".bc"], work + "/src_" + s + ".bc")[0])]
            if sh([LINK] + mods + more + ["-o", l]).returncode or opt().returncode: sh([LINK] + mods + ["-o", l]); r = opt()
        if r.returncode: broken.append("opt " + f + "\n" + r.stdout[-1000:]); return None
        return o
    linked = dict(zip(files, ex.map(link, files)))
    tasks = []
    for f in files:
        if not linked[f]: continue
        src, opts, fns, cov = meta[f]
        for fn in fns:
            o = dict(opts.get(fn, {}))
            if tier != "thorough" and (o.get("tier") == "thorough" or fn.startswith("vt_")): continue
            if only and only not in fn: continue
            n = int(o.get("split", "1"))
            if tier == "thorough" and "tsplit" in o: n = int(o["tsplit"])
            for p in range(n): tasks.append((f, fn, p, n, o))
    tasks.sort(key=lambda t: -float(t[4].get("cost", "1")))
    deadline = t0 + budget
    def job(t):
        f, fn, p, n, o = t
        out = "%s/%s.%d.json" % (work, fn, p)
        left = deadline - time.time()
        if left < 2: return t, {"harness": fn, "timeout": True, "obligations": [], "violations": [], "skipped": True}
        tmo = float(o.get("ttimeout" if tier == "thorough" and "ttimeout" in o else "timeout", "600" if tier == "thorough" else "150"))
        tmo = min(tmo, left)
        cmd = [ENGINE, linked[f], "--fn", fn, "--timeout", "%.0f" % tmo, "--out", out]
        cmd += ["--solver-ms", o.get("solver-ms", "30000"), "--part", str(p)]
        if "max-iter" in o: cmd += ["--max-iter", o["max-iter"]]
        if "cuts" not in o: cmd += ["--no-cuts"]
        for tries in (1, 2):
            try: r = sh(cmd, timeout=tmo + 60)
            except subprocess.TimeoutExpired: return t, {"harness": fn, "timeout": True, "obligations": [], "violations": [], "crash": "engine timeout"}
            if os.path.exists(out): return t, json.load(open(out))
        return t, {"harness": fn, "timeout": False, "obligations": [], "violations": [], "crash": "engine ended with %s: %s" % (r.returncode, r.stdout[-500:])}
    results = list(ex.map(job, tasks))
    return report(pid, tier, seed, work, meta, results, broken, t0, verbose, linked)

def other_sources(f, src):
    text = open(V + "/harness/" + f).read()
    return sorted(x[:-3] for x in os.listdir(REPO + "/code/src") if x.endswith(".cc") and x[:-3] not in src and "src/" + x not in text)

_native = {}
def native(f, meta, work):
    """harness and repository sources as an executable, with sanitizers"""
    if f in _native: return _native[f]
    exe = work + "/" + f + ".exe"
    D = ["-DVF_THOROUGH=1"] if os.environ.get("VERIF_TIER") == "thorough" else []
    def build(src): return sh([CXX, "-std=c++17", "-g", "-O1", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,alignment", "-D_GLIBCXX_ASSERTIONS", "-I" + INC, "-I" + V + "/rt", "-I" + V + "/harness",
            "-fno-access-control", "-w", "-rdynamic", "-DVF_NATIVE=1", V + "/harness/" + f, V + "/rt/native.cc"] + D + [REPO + "/code/src/" + s + ".cc" for s in src] + ["-o", exe, "-ldl"])
    src = meta[f][0]
    if "TextView" in src and "string_view_util" not in src: src = src + ["string_view_util"]
    r = build(src)
    if r.returncode and "undefined reference" in r.stdout: r = build(src + other_sources(f, src))
    _native[f] = exe if r.returncode == 0 else None
    if r.returncode: sys.stderr.write(r.stdout[-3000:])
    return _native[f]

def replay(f, fn, viol, meta, work, rep, part, secs=8):
    """True when the failing input misbehaves in the real, natively compiled code"""
    exe = native(f, meta, work)
    if not exe: return False, "native build failed"
    env = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    def go(args, t=20):
        try: r = sh([exe, fn] + args, timeout=t, env=env)
        except subprocess.TimeoutExpired: return 124, "native run does not end within %d s" % t
        return r.returncode, r.stdout
    first = ""
    if viol:
        rc, txt = go(["--part", str(part), "--replay", rep])
        if rc not in (0, 77, 78): return True, "native replay: exit %d\n%s" % (rc, txt[-3000:])
        first = "native replay of the solver's input: exit %d\n%s" % (rc, txt[-500:])
    t = time.time()
    i = alone_failed = 0
    while time.time() - t < secs and i < 20000 and alone_failed < 20:
        i += 1
        rc, txt = go(["--part", str(part), "--seed", str(i), "--rounds", "2000"], 20)
        if rc not in (0, 77, 78, 124):
            # confirmed in a fresh process: statics of the harness do not count
            alone = rep + ".search"
            open(alone, "w").write("".join("INPUT " + l[9:] + "\n" for l in txt.splitlines() if l.startswith("VF-INPUT ")))
            rc2, txt2 = go(["--part", str(part), "--replay", alone])
            os.unlink(alone)
            if rc2 in (0, 77, 78, 124):
                alone_failed += 1
                continue
            return True, first + "\nrandom search, seed %d: exit %d\n%s" % (i, rc2, txt2[-3000:])
    return False, first

def report(pid, tier, seed, work, meta, results, broken, t0, verbose, linked):
    known = set()
    kf = V + "/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"finding: property=(\w+) harness=(\w+) (.*)", l.strip())
            if m and m.group(1) == pid: known.add((m.group(2), m.group(3)))
    knownh = {h: d for h, d in known}
    tot = dis = 0
    bt = bd = 0
    funcs, backend, trusted, assumptions, undecided, vac = set(), {}, set(), set(), [], []
    loops, stubs, kinds, ctl, bounds = {}, set(), {}, [], set()
    solver = 0.0
    covers = {}
    viols, finds = [], []
    per = {}
    for (f, fn, p, n, o), r in results:
        isneg = fn.startswith("vn_")
        isknown = fn.startswith("vk_")
        v = r.get("violations", [])
        solver += r.get("solver_s", 0)
        for k, c in r.get("backend", {}).items(): backend[k] = backend.get(k, 0) + c
        if r.get("crash"): undecided.append(fn + ": " + r["crash"])
        if r.get("timeout"): undecided.append("%s[%d]: time limit reached after %d paths" % (fn, p, r.get("paths", 0)))
        for u in r.get("unsupported", []): undecided.append(fn + ": outside the verifier's reach: " + u)
        for u in r.get("unknown", []): undecided.append(fn + ": solver gave no answer: " + u)
        if isneg:
            ctl.append((fn, bool(v)))
            continue
        if isknown:
            if v: finds.append((fn, v[0]))
            continue
        funcs.update(r.get("functions", []))
        trusted.update(r.get("trusted", []))
        assumptions.update(r.get("assumptions", []))
        stubs.update(r.get("stubs", []))
        for k, l in r.get("loops", {}).items(): loops[k] = l
        covers.setdefault(fn, set()).update(r.get("covers", []))
        b = bool(r.get("bounded")) or "bounded" in o
        for x in r.get("bounded", []): bounds.add(fn + ": " + x)
        q = per.setdefault(fn, {"paths": 0, "obligations": 0, "discharged": 0, "wall_s": 0.0, "bounded": False, "complete": True})
        q["paths"] += r.get("paths", 0)
        q["wall_s"] = round(q["wall_s"] + r.get("wall_s", 0), 2)
        q["bounded"] |= b
        q["complete"] &= not (r.get("timeout") or r.get("unsupported") or r.get("unknown") or r.get("crash"))
        for ob in r.get("obligations", []):
            c = ob["instances"]
            good = c - ob["failed"] - ob["unknown"]
            q["obligations"] += c
            q["discharged"] += max(good, 0)
            kinds[ob["kind"]] = kinds.get(ob["kind"], 0) + c
            if b: bt += c; bd += max(good, 0)
            else: tot += c; dis += max(good, 0)
        for x in v: viols.append((f, fn, p, x))
    for f in meta:
        for fn in meta[f][2]:
            if fn in covers:
                miss = [c for c in meta[f][3].get(fn, []) if c not in covers[fn]]
                if miss: vac.append(fn + ": not reached: " + ", ".join(miss))
                if per[fn]["obligations"] == 0: vac.append(fn + ": no obligations")
    for fn, ok in ctl:
        if not ok: vac.append(fn + ": negative control not refuted")
    os.makedirs(V + "/replay", exist_ok=True)
    out = 0
    nv = 0
    seen = set()
    for i, (f, fn, p, x) in enumerate(viols):
        if fn in seen: continue
        seen.add(fn)
        nv += 1
        rep = "%s/replay/%s_%s.txt" % (V, pid, fn)
        body = ["# property %s, obligation of %s (part %d)" % (pid, fn, p), "# harness file: harness/" + f, "# " + x["kind"] + ": " + x["what"], "# at " + x["where"]]
        body += ["# " + t for t in x["trace"]]
        body += ["INPUT " + s for s in x["inputs"]]
        open(rep, "w").write("\n".join(body) + "\n")
        if nv <= 8: ok, txt = replay(f, fn, x, meta, work, rep, p)
        else: ok, txt = False, "not replayed"
        open(rep, "a").write("".join("# " + l + "\n" for l in txt.splitlines()))
        print("failed obligation: %s: %s at %s (in %s)" % (x["kind"], x["what"], x["where"], fn))
        for s in x["inputs"][:12]: print("   input " + s[:200])
        print("VIOLATION property=%s replay=%s%s" % (pid, rep, "" if ok else " no-failing-input-found"))
        out = 1
    for fn, x in finds:
        if fn in knownh: print("KNOWN-FINDING: property=%s %s" % (pid, knownh[fn]))
        else:
            rep = "%s/replay/%s_%s.txt" % (V, pid, fn)
            open(rep, "w").write("\n".join(["# " + x["what"] + " at " + x["where"]] + ["INPUT " + s for s in x["inputs"]]) + "\n")
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            nv += 1
            out = 1
    # a contract the verifier could not finish: look for a failing input of the real code by random inputs
    und = {}
    for (f, fn, p, n, o), r in results:
        if fn[:3] in ("vc_", "vt_") and fn not in seen and (r.get("timeout") or r.get("unsupported") or r.get("unknown") or r.get("crash")): und.setdefault((f, fn), p)
    searched = []
    for (f, fn), p in list(und.items())[:8]:
        rep = "%s/replay/%s_%s.txt" % (V, pid, fn)
        open(rep, "w").write("# property %s, contract %s (part %d), undecided by the verifier\n# harness file: harness/%s\n" % (pid, fn, p, f))
        ok, txt = replay(f, fn, None, meta, work, rep, p, 6)
        searched.append(fn)
        if ok:
            open(rep, "a").write("".join("# " + l + "\n" for l in txt.splitlines()))
            print("failed obligation: found by random search in the undecided contract %s" % fn)
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            nv += 1
            out = 1
    lev = "proof"
    try:
        for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
            if c["property"] == pid: lev = c["level"]
    except Exception: pass
    tb = ["clang 18 front end and the mid level passes named in check.py (C++ to LLVM IR)", "vfengine's IR semantics (engine/*.cpp)", "z3 5.3.2 and cvc5 1.1.2", "rt/libc_model.c for C library string functions, rt/libstdcxx_model.cc for the hash and growth policy of std::unordered_map"] + sorted(trusted)
    cov = {"obligations": tot, "discharged": dis, "bounded_obligations": bt, "bounded_discharged": bd,
           "bounds": sorted(bounds), "checker_cmd": "build/vfengine <module> --fn <contract>  (run by: python3 check.py %s %s)" % (pid, tier), "trusted_base": tb,
           "functions_under_contract": sorted(funcs), "function_count": len(funcs), "obligation_kinds": kinds, "solver_answers": backend, "solver_s": round(solver, 2),
           "contracts": per, "contract_stubs_used": sorted(stubs), "loops": loops, "undecided": sorted(set(undecided + broken)), "vacuity": vac, "undecided_searched_natively": searched,
           "negative_controls": {a: b for a, b in ctl},
           "explanation": "Deductive verification by symbolic execution of the LLVM IR of the repository's own functions against contracts; obligations on contracts marked bounded hold up to the stated bound only and are counted apart."}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lev, "coverage": cov, "assumptions": sorted(assumptions) + ["memory allocation does not fail", "bases of distinct objects are well separated; object addresses above 2^47 do not occur"], "wall_s": round(time.time() - t0, 2), "violations": nv}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    print("%s %s: %d contracts, %d/%d obligations discharged (%d/%d of them bounded), %d functions of the repository, solver %.1f s, wall %.1f s" %
          (pid, tier, len(per), dis + bd, tot + bt, bd, bt, len(funcs), solver, time.time() - t0))
    for u in sorted(set(undecided)): print("  undecided: " + u[:300])
    for u in broken: print("  " + u[:1500])
    for u in vac: print("  vacuity: " + u)
    if verbose:
        for k, q in sorted(per.items()): print("  ", k, q)
        for u in sorted(bounds): print("   bound:", u)
    if out == 0 and not per:
        print("no contract could be checked")
        return 2
    return out
if __name__ == "__main__": main()
