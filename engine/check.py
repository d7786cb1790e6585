#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: proves the contracts of harness/<PROPERTY>*.cpp on /repo's current tree."""
import sys, os, re, json, time, glob, subprocess, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build_ir
REPO = os.environ.get("VF_REPO", "/repo")
PY = "python3-vt"
def parse(f):
    """directives of a harness file"""
    d = dict(file=f, sources=[], opts={}, bounded={}, thorough=set(), native_only={}, extra=[], known={}, nofuzz=set())
    txt = open(f).read()
    for m in re.finditer(r"^//@\s*(\w+)\s*(.*)$", txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == "sources": d["sources"] += v.split()
        elif k == "opt":
            n, *kv = v.split(); d["opts"].setdefault(n, []).extend(kv)
        elif k == "bounded":
            n, _, t = v.partition(" "); d["bounded"][n] = t
        elif k == "native":
            n, _, t = v.partition(" "); d["native_only"][n] = t
        elif k == "thorough": d["thorough"] |= set(v.split())
        elif k == "nofuzz": d["nofuzz"] |= set(v.split())
        elif k == "flags": d["extra"] += v.split()
    d["harnesses"] = re.findall(r"^VF_HARNESS\((\w+)\)", txt, re.M)
    return d
NATIVE_FLAGS = ["-std=c++17", "-O1", "-g", "-w", "-DVF_NATIVE=1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_DISABLE_ASSERTS"]
def build_native(d, work):
    out = os.path.join(work, "native")
    srcs = [d["file"]] + [os.path.join(REPO, s) for s in d["sources"] if s[0] != "@"] + [os.path.join(VERIF, "harness", "vf_native.cpp")]
    def comp(s):
        o = os.path.join(work, "n" + re.sub(r"\W", "_", os.path.basename(s)) + "%d.o" % (abs(hash(s)) % 100000))
        build_ir.sh(["g++"] + NATIVE_FLAGS + d["extra"] + build_ir.incs(REPO) + ["-c", s, "-o", o]); return o
    with cf.ThreadPoolExecutor(8) as ex: os_ = list(ex.map(comp, srcs))
    build_ir.sh(["g++", "-fsanitize=address"] + os_ + ["-o", out, "-lboost_filesystem", "-lboost_system", "-lpthread"] + (["-lfftw3", "-lfftw3f"] if "fftw" in " ".join(d["extra"]) else []))
    return out
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1")
def run_worker(mp, h, opts, secs, work):
    out = os.path.join(work, "r_%s.json" % h)
    try:
        subprocess.run([PY, os.path.join(HERE, "worker.py"), mp, h, out, "seconds=%d" % secs] + opts, timeout=secs + 60, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return json.load(open(out))
    except Exception as e:
        return dict(harness=h, error="worker: %s" % str(e)[:200], obligations=[], covers={}, notes=[], trusted=[], functions=[], loops=[])
def fuzz(native, h, secs, seed, maxruns=100000000):
    try:
        p = subprocess.run([native, "fuzz", h, str(secs), str(seed), str(maxruns)], capture_output=True, text=True, timeout=secs + 60, env=ENV)
    except subprocess.TimeoutExpired: return ("ok", "timeout", "")
    l = [x for x in p.stdout.split("\n") if x.startswith(("ok ", "fail "))]
    if not l: return ("ok", "no output", "")
    w = l[-1].split(" ", 2)
    return (w[0], l[-1], p.stderr[-3000:])
def known():
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m: r.append(m.groups())
    return r
def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = "thorough" if "--tier=thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--tier=quick" not in sys.argv else "quick"
    verbose = "-v" in sys.argv
    only = [a.split("=")[1] for a in sys.argv if a.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VF_TMP"))
    replays = os.path.join(VERIF, "evidence", "replays"); os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, pid + "-*")): os.unlink(f)
    files = sorted(glob.glob(os.path.join(VERIF, "harness", pid + "*.cpp")))
    secs = 400 if tier == "quick" else 2400
    results = []; problems = []; undecided = []; conform = {}
    ds = [parse(f) for f in files]
    pool = cf.ThreadPoolExecutor(8); bpool = cf.ThreadPoolExecutor(8)
    def one_file(i, d):
        w = os.path.join(work, "f%d" % i); os.makedirs(w, exist_ok=True)
        nat = bpool.submit(build_native, d, w)
        try:
            mp, hs = build_ir.build(REPO, d["file"], d["sources"], w, d["extra"])
        except Exception as e:
            mp, hs = None, d["harnesses"]; err = str(e)
            if verbose: print(err[-3000:])
        hs = [h for h in hs if (tier == "thorough" or h not in d["thorough"]) and (not only or h in only)]
        rs = []
        if mp:
            futs = [(h, pool.submit(run_worker, mp, h, d["opts"].get(h, []), secs, w)) for h in hs if h not in d["native_only"]]
            rs = [(h, f.result()) for h, f in futs]
        else: rs = [(h, dict(harness=h, error="IR build failed: " + err[-1500:], obligations=[], covers={}, notes=[], trusted=[], functions=[], loops=[])) for h in hs if h not in d["native_only"]]
        try: native = nat.result()
        except Exception as e:
            native = None
            if verbose: print("NATIVE BUILD FAILED", str(e)[-3000:])
        return d, native, rs, hs, mp, w
    with cf.ThreadPoolExecutor(4) as ex: allr = list(ex.map(lambda x: one_file(*x), enumerate(ds)))
    viol = []; known_hits = []; kn = known()
    jobs = []
    for d, native, rs, hs, mp, w in allr:
        for h in hs:
            r = dict(rs).get(h)
            bad = [o for o in r["obligations"] if o["status"] != "proved"] if r else []
            covbad = [c for c, v in r["covers"].items() if not v] if r else []
            jobs.append((d, native, h, r, bad, covbad, mp, w))
    def conformance(j):
        d, native, h, r, bad, covbad, mp, w = j
        if not native or h in d["nofuzz"]: return None
        t = (3 if tier == "quick" else 30) if not bad and not (r and r.get("error")) else (40 if tier == "quick" else 200)
        if h in d["native_only"]: t = 20 if tier == "quick" else 200
        # solver model first
        if bad and r.get("inputs"):
            rp = os.path.join(replays, "%s-%s-model.txt" % (pid, h))
            write_replay(rp, pid, d, h, r, bad)
            with open(rp, "a") as f:
                for k, v in r["inputs"].items(): f.write("val %s %s\n" % (k, v))
                for n, a, v in r.get("funs", []): f.write("fun %s(%s) %s\n" % (n, ",".join(fmt(x) for x in a), v))
            try:
                p = subprocess.run([native, "replay", h, rp], capture_output=True, text=True, timeout=90, env=ENV)
                if p.returncode == 1 and "FAILED" in p.stdout + p.stderr: return ("fail-model", rp, p.stdout[-2000:])
            except subprocess.TimeoutExpired: pass
            os.unlink(rp)
        return fuzz(native, h, t, seed * 1000003)
    with cf.ThreadPoolExecutor(8) as ex: confs = list(ex.map(conformance, jobs))
    nob = ndis = 0; nbound = 0; by = {}; funcs = {}; trusted = set(); notes = set(); loops = []; nruns = 0; hinfo = []; queries = 0; solver_s = 0.0
    bounded_used = []
    for (d, native, h, r, bad, covbad, mp, w), cv in zip(jobs, confs):
        info = dict(contract=h, file=os.path.relpath(d["file"], VERIF))
        isb = h in d["bounded"] or h in d["native_only"]
        if r:
            n = len(r["obligations"]); k = n - len(bad)
            decided = not r.get("error") and not r.get("vacuous") and not covbad and n > 0
            info.update(obligations=n, discharged=k, error=r.get("error"), loops=len(r["loops"]), wall_s=r.get("wall_s"))
            if any("bounded:" in x for x in r["notes"]): isb = True
            if decided and not isb: nob += n; ndis += k
            elif not decided and not isb: nob += max(n, 1); ndis += min(k, max(n, 1) - 1)
            else: nbound += k
            for a, b in r.get("by", {}).items(): by[a] = by.get(a, 0) + b
            queries += r.get("queries", 0); solver_s += r.get("solver_s", 0)
            for f in r["functions"]: funcs[f[0]] = "%s:%d" % (f[1], f[2])
            trusted |= set(r["trusted"]); notes |= set(r["notes"]); loops += r["loops"]
            if r.get("error"): undecided.append("%s: %s" % (h, r["error"][-300:].replace("\n", " "))); info["status"] = "undecided by the verifier"
            elif r.get("vacuous"): undecided.append(h + ": vacuous"); info["status"] = "vacuous"
            elif covbad: undecided.append(h + ": unreachable " + ",".join(covbad)); info["status"] = "cover not reached"
            elif bad: info["status"] = "failed"
            else: info["status"] = "bounded, holds" if isb else "proved"
        else: info["status"] = "bounded (native search)"
        if isb: info["bound"] = d["bounded"].get(h) or d["native_only"].get(h) or "loop unrolling"
        if cv:
            info["native"] = cv[1] if cv[0] != "fail-model" else "solver model fails natively"
            if cv[0] == "ok":
                try: nruns += int(cv[1].split()[1]) - int(cv[1].split()[2])
                except Exception: pass
        hinfo.append(info)
        failing = cv and cv[0] in ("fail", "fail-model")
        if failing or bad:
            rp = os.path.join(replays, "%s-%s.txt" % (pid, h))
            if cv and cv[0] == "fail-model": rp = cv[1]
            else:
                write_replay(rp, pid, d, h, r, bad)
                if failing:
                    with open(rp, "a") as f: f.write("seed %s\n# %s\n%s\n" % (cv[1].split()[1], cv[1], "\n".join("# " + x for x in cv[2].split("\n")[:60])))
            text = (cv[1] if failing else "") + " " + "; ".join("%s (%s)" % (o["name"], o["loc"]) for o in bad[:5])
            hit = None
            for (kp, kh, km, desc) in kn:
                if kp == pid and kh == h and km in text: hit = desc
            if hit: known_hits.append((h, hit))
            else: viol.append((h, rp, bool(failing), text.strip()))
        elif info["status"] != "proved" and not isb and r: problems.append(info)
        if verbose: print(json.dumps(info))
        if verbose and bad:
            for o in bad[:6]: print("     ", o)
    shutil.rmtree(work, ignore_errors=True)
    shown = set()
    for h, desc in known_hits:
        if desc not in shown: print("KNOWN-FINDING: property=%s %s" % (pid, desc)); shown.add(desc)
    level = "proof" if nob > 0 and not undecided else "other"
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd="python3 engine/check.py %s --tier=%s (LLVM IR of /repo -> verification conditions -> z3, cvc5)" % (pid, tier),
                            trusted_base=["clang 18 front end and LLVM IR semantics as implemented in engine/exec.py", "z3 (python bindings), cvc5 1.1.2", "engine/builtins_model.py: models of the run time and libm", "harness/rt_model.cpp: ordered tree helpers"] + sorted(trusted),
                            contracts=hinfo, functions_under_contract=[dict(function=k[:160], where=v) for k, v in sorted(funcs.items())],
                            discharged_by_backend=by, solver_queries=queries, solver_s=round(solver_s, 1),
                            bounded_obligations=nbound, loop_invariants=loops[:60],
                            conformance_runs=nruns, undecided=undecided, explanation="contracts proved for all inputs; contracts marked bounded are not counted in obligations/discharged"),
              assumptions=sorted(notes) + ["floating point numbers are treated as real numbers (no rounding, overflow or NaN)",
                           "signed integer arithmetic is mathematical where the source has undefined behaviour on overflow; unsigned arithmetic wraps", "termination is not proved", "single thread"])
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for u in undecided: print("UNDECIDED (bounded stand-in only): " + u[:400])
    print("%s: %d/%d obligations discharged in %d contracts, %d bounded obligations, %d native runs, %.0fs" % (pid, ndis, nob, len(hinfo), nbound, nruns, time.time() - t0))
    if viol:
        viol.sort(key=lambda v: not v[2])
        for h, rp, inp, text in viol: print("failed contract %s: %s" % (h, text[:500]))
        h, rp, inp, text = viol[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if inp else " no-failing-input-found"))
        return 1
    return 0
def fmt(x):
    try:
        f = float(x)
        if "." not in x and "e" not in x: return x
        return "%.9g" % f
    except ValueError: return x
def write_replay(rp, pid, d, h, r, bad):
    with open(rp, "w") as f:
        f.write("# property %s, contract %s of %s\n# replay: python3 engine/replay.py %s\nharness %s %s\n" % (pid, h, os.path.relpath(d["file"], VERIF), rp, os.path.relpath(d["file"], VERIF), h))
        for o in bad: f.write("# obligation not discharged: %s [%s] at %s: %s (%s)\n" % (o["name"], o["kind"], o["loc"], o["status"], o["how"]))
        if r and r.get("query"): f.write("".join("# smt| %s\n" % l for l in r["query"].split("\n")[:300]))
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); rc = 3
    sys.exit(rc)
