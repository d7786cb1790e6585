"""Proves one harness: worker.py MODULE.json HARNESS OUT.json [key=value...]"""
import sys, json, time, os, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)
import z3
import terms as T
from terms import Unsupported
import solver
import exec as X
from exec import Exec, State, Ctx, Infeasible, Budget

def model_inputs(ex, mdl):
    """values of the inputs in a solver model"""
    r = {}
    for k in ex.nd_order:
        v = ex.nondets[k]
        try:
            if isinstance(v, (bool, z3.BoolRef)):
                r[k] = "1" if z3.is_true(mdl.eval(T.bz(v), model_completion=True)) else "0"; continue
            z = mdl.eval(T.toz(v), model_completion=True)
            if z3.is_int_value(z): r[k] = str(z.as_long())
            elif z3.is_rational_value(z): r[k] = repr(z.numerator_as_long() / z.denominator_as_long())
            elif z3.is_algebraic_value(z):
                a = z.approx(20); r[k] = repr(a.numerator_as_long() / a.denominator_as_long())
        except Exception: pass
    fns = []
    for name, args, app in ex.uf_apps:
        if name.startswith("spec_"): continue
        try:
            av = [mdl.eval(a, model_completion=True) for a in args]; rv = mdl.eval(app, model_completion=True)
            def num(z):
                if z3.is_int_value(z): return str(z.as_long())
                if z3.is_true(z): return "1"
                if z3.is_false(z): return "0"
                if z3.is_rational_value(z): return repr(z.numerator_as_long() / z.denominator_as_long())
                a = z.approx(20); return repr(a.numerator_as_long() / a.denominator_as_long())
            fns.append([name, [num(a) for a in av], num(rv)])
        except Exception: pass
    return r, fns

def run(module, harness, opts):
    t0 = time.time()
    m = module
    ex = Exec(m, opts)
    ex.deadline = t0 + float(opts.get("seconds", 300))
    res = dict(harness=harness, error=None, obligations=[], covers={}, notes=[], trusted=[], functions=[], loops=[], inputs=None)
    st = State(); ctx = Ctx()
    try:
        for c in m.get("ctors", []):
            s2 = st.fork()
            try:
                ex.run_ctor = True
                c2 = ctx.copy(record=False)
                outs = [o for o in ex.run_fn(s2, c2, c, []) if o[0] == "ret"]
                if len(outs) == 1: st = outs[0][1]
            except (Unsupported, Infeasible) as e:
                ex.notes.add("static initialiser not executed: %s (%s)" % (ex.funcs[c].dem[:80], str(e)[:300]))
        ex.fn_executed.clear(); ex.obls.clear()
        ex.spec_mem = dict(st.mem)
        outs = ex.run_fn(st, ctx, "vfh_" + harness, [])
        nret = 0
        for o in outs:
            if o[0] == "exc":
                ex.oblige(o[1], ctx, "no unexpected exception (%s)" % (o[2][1] if o[2] else "?"), False, "exception")
            else: nret += 1
        res["paths"] = len(outs)
        if nret:
            # vacuity: some path reaches the end of the contract
            if not any(solver.check(list(o[1].pc), 3000)[0] != "unsat" for o in outs if o[0] == "ret"): res["vacuous"] = True
        elif not ex.obls: res["vacuous"] = True
    except StopIteration: pass
    except (Unsupported, Budget) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
    except RecursionError as e:
        res["error"] = "Recursion: " + str(e)[:100]
    except Exception as e:
        import traceback
        res["error"] = "Internal: " + traceback.format_exc()[-1500:]
        if opts.get("verbose"): traceback.print_exc()
    failed = None
    for o in ex.obls:
        res["obligations"].append(dict(name=o.name, kind=o.kind, loc=o.loc, status=o.status, how=o.how, time=round(o.time, 3)))
        if o.status != "proved" and failed is None: failed = o
    for o in ex.obls:
        if o.status == "failed" and o.model is not None:
            try: res["inputs"], res["funs"] = model_inputs(ex, o.model); res["inputs_for"] = o.name
            except Exception: pass
            break
    if failed is not None:
        try:
            s = z3.Solver()
            for e in (failed.pc or ()): s.add(e)
            s.add(T.bz(T.b_not(failed.goal)))
            res["query"] = s.to_smt2()[:20000]
        except Exception: pass
    res["covers"] = ex.covers
    res["notes"] = sorted(ex.notes); res["trusted"] = sorted(ex.trusted)
    repo = []
    for f in sorted(ex.fn_executed):
        j = ex.funcs[f].j
        if j.get("file", "").startswith("/repo/") or "/repo/" in j.get("file", ""):
            repo.append([ex.funcs[f].dem, j["file"].split("/repo/")[-1], j.get("line", 0)])
    res["functions"] = repo
    res["loops"] = list(ex.loopinfo.values())
    res["steps"] = ex.steps; res["queries"] = solver.STATS.queries; res["solver_s"] = round(solver.STATS.time, 2); res["by"] = solver.STATS.by
    res["wall_s"] = round(time.time() - t0, 2)
    return res

def main():
    module = json.load(open(sys.argv[1]))
    opts = {}
    for a in sys.argv[4:]:
        k, v = a.split("=", 1)
        try: v = int(v)
        except ValueError: pass
        opts[k] = v
    import shutil
    solver.CVC5 = shutil.which("cvc5")
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    out = {}
    def go():
        out["r"] = run(module, sys.argv[2], opts)
    t = threading.Thread(target=go); t.start(); t.join()
    r = out.get("r") or dict(harness=sys.argv[2], error="Internal: worker died", obligations=[], covers={}, notes=[], trusted=[], functions=[], loops=[])
    json.dump(r, open(sys.argv[3], "w"))
    if opts.get("verbose"):
        print(json.dumps({k: v for k, v in r.items() if k not in ("obligations", "query", "functions")}, indent=1))
        n = sum(o["status"] == "proved" for o in r["obligations"])
        print("%s: %d/%d obligations proved, %s" % (sys.argv[2], n, len(r["obligations"]), r["error"]))
        for o in r["obligations"]:
            if o["status"] != "proved": print("  NOT PROVED", o)
if __name__ == "__main__": main()
