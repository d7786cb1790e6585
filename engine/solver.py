"""Discharging obligations: opaque-product query, then precise products, then cvc5."""
import time, subprocess, tempfile, os
import z3
import terms as T
from terms import bz, b_not, closure

class Stats:
    def __init__(self): self.queries = 0; self.time = 0.0; self.by = {}
STATS = Stats()
CVC5 = None   # path of the second back end, set by the driver

def limit(s, ms):
    """the budget of a query counts solver steps (the same on a slow or busy machine); the clock is the last resort"""
    s.set("rlimit", int(ms) * 1000); s.set("timeout", int(ms) * 5)

class Relax:
    """integers become reals and applied symbols become variables: if the weaker problem is unsatisfiable so is the original,
    and it falls within z3's decision procedure for polynomial arithmetic"""
    def __init__(self, sub): self.sub = sub; self.c = {}; self.facts = []; self.n = 0
    def var(self, e):
        n = "rx!%d" % e.get_id()
        return z3.Bool(n) if z3.is_bool(e) else z3.Real(n)
    def __call__(self, e):
        i = e.get_id(); r = self.c.get(i)
        if r is None: r = self.c[i] = self.go(e)
        return r
    def cmpi(self, k, a, b):
        """comparison of integers, made non-strict"""
        if k == z3.Z3_OP_LT: return self(a) + 1 <= self(b)
        if k == z3.Z3_OP_GT: return self(a) >= self(b) + 1
        return self(a) <= self(b) if k == z3.Z3_OP_LE else self(a) >= self(b)
    def go(self, e):
        k = e.decl().kind(); ch = e.children()
        if z3.is_rational_value(e): return e
        if z3.is_int_value(e): return z3.RealVal(e.as_long())
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return e
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            if ch[0].sort() == z3.IntSort(): return self.cmpi(k, ch[0], ch[1])
            a, b = self(ch[0]), self(ch[1])
            return a <= b if k == z3.Z3_OP_LE else a < b if k == z3.Z3_OP_LT else a >= b if k == z3.Z3_OP_GE else a > b
        if k == z3.Z3_OP_NOT:
            x = ch[0]; kx = x.decl().kind()
            neg = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(kx)
            if neg is not None and x.arg(0).sort() == z3.IntSort(): return self.cmpi(neg, x.arg(0), x.arg(1))
            return z3.Not(self(x))
        if k == z3.Z3_OP_EQ: return self(ch[0]) == self(ch[1])
        if k == z3.Z3_OP_DISTINCT: return z3.Distinct(*[self(c) for c in ch])
        if k == z3.Z3_OP_AND: return z3.And(*[self(c) for c in ch])
        if k == z3.Z3_OP_OR: return z3.Or(*[self(c) for c in ch])
        if k == z3.Z3_OP_IMPLIES: return z3.Implies(self(ch[0]), self(ch[1]))
        if k == z3.Z3_OP_ITE: return z3.If(self(ch[0]), self(ch[1]), self(ch[2]))
        if k == z3.Z3_OP_TO_REAL: return self(ch[0])
        if k == z3.Z3_OP_UMINUS: return -self(ch[0])
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            r = self(ch[0])
            for c in ch[1:]: r = r + self(c) if k == z3.Z3_OP_ADD else r * self(c) if k == z3.Z3_OP_MUL else r - self(c)
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]): return self(ch[0]) / ch[1]
        if k == z3.Z3_OP_UNINTERPRETED and e.get_id() in self.sub: return self(self.sub[e.get_id()])
        v = self.var(e)
        if k == z3.Z3_OP_TO_INT: x = self(ch[0]); self.facts += [v <= x, x < v + 1]
        return v

def relaxed(es, cl, ms):
    sub = {}; mo = set(); drop = set()
    for e in list(es) + list(cl): mo |= T.deps(e)[1]
    if not mo: return "unknown"
    for m in mo:
        fs = [T.ATOMS[i].z for i in m]
        if T.mono_z(m).sort() == z3.RealSort(): fs = [z3.ToReal(f) if f.sort() == z3.IntSort() else f for f in fs]
        p = fs[0]
        for f in fs[1:]: p = p * f
        for f in T.mono_sign(m): drop.add(f.get_id())
        z = T.mono_z(m); sub[z.get_id()] = p; T._keep.append(p); T._keep.append(z)
    R = Relax(sub); g = []
    seen = set()
    for e in list(es) + list(cl):
        if e.get_id() in drop or e.get_id() in seen: continue
        seen.add(e.get_id()); x = R(e)
        if not z3.is_true(z3.simplify(x)): g.append(x)
    g += R.facts
    for mk in (lambda: z3.SolverFor("QF_NRA"),):
        s = mk(); limit(s, ms)
        for x in g: s.add(x)
        try: r = str(s.check())
        except z3.Z3Exception: r = "unknown"
        if r == "unsat": return r
    return "unknown"

_cache = {}
def _ck(key, f):
    r = _cache.get(key)
    if r is None:
        r = f(); _cache[key] = r
    return r
def reset():
    _cache.clear()
    INC.fresh()

class Inc:
    """one incremental solver; the asserted formulas form a stack that follows the path conditions.
    Each frame asserts one formula and the side facts that formula needs and no frame below has asserted."""
    def __init__(self): self.fresh()
    def fresh(self):
        self.s = z3.SimpleSolver(); self.s.set("random_seed", 1)
        self.ids = []; self.new = []      # per frame: formula id, (atoms, lemmas, monomials) first needed there
        self.at = {}; self.le = {}; self.mo = {}   # -> frame
        self.pos = 0; self.n = 0
    def pop_to(self, k):
        d = len(self.ids) - k
        if d <= 0: return
        self.s.pop(d)
        for a, l, m in self.new[k:]:
            for i in a: del self.at[i]
            for i in l: del self.le[i]
            for i in m: del self.mo[i]
        del self.ids[k:]; del self.new[k:]
    def push(self, e):
        k = len(self.ids)
        self.s.push(); self.s.add(e)
        a, l, m = [], [], []
        todo = [e]
        while todo:
            na, nm, nl = set(), set(), set()
            for x in todo:
                r = T.deps(x); na |= r[0]; nm |= r[1]; nl |= r[2]
            todo = []
            for i in na:
                if i not in self.at: self.at[i] = k; a.append(i); todo += T.ATOMS[i].facts
            for i in nl:
                if i not in self.le: self.le[i] = k; l.append(i); todo += T.LEMMAS[i]
            for i in nm:
                if i not in self.mo:
                    self.mo[i] = k; m.append(i); todo += T.mono_sign(i)
                    for j in i:
                        if j not in self.at: self.at[j] = k; a.append(j); todo += T.ATOMS[j].facts
            for f in todo: self.s.add(f)
        self.ids.append(e.get_id()); self.new.append((a, l, m)); T._keep.append(e)
    def sync(self, es):
        self.n += 1
        if self.n > 4000: self.fresh()
        D = T.DIRTY
        if self.pos < len(D):
            k = len(self.ids)
            for j in range(self.pos, len(D)):
                q, i = D[j]
                if q == "x": k = 0; continue
                f = (self.at if q == "a" else self.le).get(i)
                if f is not None and f < k: k = f
            self.pos = len(D); self.pop_to(k)
        n = 0
        for e in es:
            if n < len(self.ids) and self.ids[n] == e.get_id(): n += 1
            else: break
        self.pop_to(n)
        for e in es[n:]: self.push(e)
    def check(self, es, timeout_ms):
        self.sync(es)
        limit(self.s, timeout_ms)
        try: r = str(self.s.check())
        except z3.Z3Exception: r = "unknown"
        if r == "unknown": self.fresh()
        return r
INC = Inc()

def check(exprs, timeout_ms=2000, precise=False, want_model=False):
    t0 = time.time()
    es = [e for e in exprs if not (isinstance(e, bool) and e)]
    if any(isinstance(e, bool) and not e for e in es): return ("unsat", None)
    key = (tuple(sorted(e.get_id() for e in es)), precise)
    if not want_model:
        c = _cache.get(key)
        if c is not None and (c != "unknown"): return (c, None)
    if not precise and not want_model:
        r = INC.check(es, min(timeout_ms, 3000))
        if r != "unknown" or timeout_ms <= 3000:
            STATS.queries += 1; STATS.time += time.time() - t0
            _cache[key] = r
            return (r, None)
    cl = closure(es, precise)
    # the plain SMT core first, then z3's default strategy: each decides goals the other does not
    plan = [(z3.SimpleSolver, min(timeout_ms, 1000), 1), (z3.SimpleSolver, min(timeout_ms, 1000), 17), (z3.SimpleSolver, min(timeout_ms, 4000), 5)]
    if timeout_ms > 3000: plan.append((z3.Solver, timeout_ms, 1))
    if precise: plan.insert(1, (None, min(timeout_ms, 3000), 0))
    for mk, t, seed in plan:
        if mk is None:
            r = relaxed(es, cl, t)
            if r == "unsat": break
            continue
        s = mk(); limit(s, t); s.set("random_seed", seed)
        for e in es: s.add(e)
        for f in cl: s.add(f)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        if r != "unknown": break
    STATS.queries += 1; STATS.time += time.time() - t0
    _cache[key] = r
    for e in es: T._keep.append(e)
    m = s.model() if (want_model and r == "sat") else None
    return (r, m)

def feasible(pc, cond, timeout_ms=1000):
    if isinstance(cond, bool): return cond
    r, _ = check(list(pc) + [cond], timeout_ms)
    return r != "unsat"

def prove(pc, goal, timeout_ms=4000, final=False):
    """-> (status, model, how): status in proved / failed / unknown"""
    if isinstance(goal, bool):
        if goal: return ("proved", None, "syntactic")
        goal_n = True
    else: goal_n = b_not(goal)
    # conjunctive goals: split
    r, _ = check(list(pc) + [goal_n], timeout_ms)
    if r == "unsat":
        STATS.by["z3"] = STATS.by.get("z3", 0) + 1
        return ("proved", None, "z3")
    if not final and r == "sat" :
        # is it only the opaque products that make it fail?
        if not has_monos(list(pc) + [goal_n]): return ("failed", None, "z3")
    r2, m = check(list(pc) + [goal_n], timeout_ms if not final else max(timeout_ms, 10000), precise=True, want_model=final)
    if r2 == "unsat":
        STATS.by["z3-nl"] = STATS.by.get("z3-nl", 0) + 1
        return ("proved", None, "z3-nl")
    if final and r2 != "sat":
        r3 = cvc5_check(list(pc) + [goal_n], 20 if final else 5)
        if r3 == "unsat":
            STATS.by["cvc5"] = STATS.by.get("cvc5", 0) + 1
            return ("proved", None, "cvc5")
    if r2 == "sat": return ("failed", m, "z3-nl")
    return ("unknown", None, "")

def has_monos(es):
    for e in es:
        if isinstance(e, bool): continue
        if T.deps(e)[1]: return True
    for f in closure([e for e in es if not isinstance(e, bool)], False):
        if T.deps(f)[1]: return True
    return False

def cvc5_check(es, seconds):
    if not CVC5: return "unknown"
    t0 = time.time()
    s = z3.Solver()
    for e in es:
        if not isinstance(e, bool): s.add(e)
        elif not e: return "unsat"
    for f in closure([e for e in es if not isinstance(e, bool)], True): s.add(f)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % (seconds * 1000), "--nl-ext-tplanes", fn], capture_output=True, text=True, timeout=seconds + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        out = "unknown"
    finally:
        os.unlink(fn)
    STATS.queries += 1; STATS.time += time.time() - t0
    return out if out in ("sat", "unsat") else "unknown"

def refute(pc, goals, idx, timeout_ms):
    """indices of goals that fail in some model (one query for all, repeated while it finds models)"""
    out = set()
    while True:
        rest = [i for i in idx if i not in out]
        if len(rest) < 2: return out
        t0 = time.time()
        ng = z3.Or([b_not(goals[i]) for i in rest]); T._keep.append(ng)
        es = pc + [ng]
        s = z3.SimpleSolver(); limit(s, min(timeout_ms, 1000)); s.set("random_seed", 1)
        for e in es: s.add(e)
        for f in closure(es, True): s.add(f)
        try: r = str(s.check())
        except z3.Z3Exception: r = "unknown"
        STATS.queries += 1; STATS.time += time.time() - t0
        if r != "sat": return out
        m = s.model(); n = 0
        for i in rest:
            if z3.is_false(m.eval(goals[i], model_completion=True)): out.add(i); n += 1
        if not n: return out

def prove_many(pc, goals, timeout_ms=1500, precise=None):
    """list of Booleans: which goals follow from pc (used for candidate invariants)"""
    res = [None] * len(goals)
    todo = []
    for i, g in enumerate(goals):
        if isinstance(g, bool): res[i] = g
        else: todo.append(i)
    if not todo: return res
    pcl = [e for e in pc if not isinstance(e, bool)]
    hard = []
    for i in todo:
        ng = b_not(goals[i])
        r, _ = check(pcl + [ng], timeout_ms)
        res[i] = r == "unsat"
        if not res[i] and (precise is None or precise[i]) and has_monos(pcl + [ng]): hard.append(i)
    bad = refute(pcl, goals, hard, timeout_ms)
    for i in hard:
        if i in bad: continue
        r2, _ = check(pcl + [b_not(goals[i])], timeout_ms, precise=True)
        if r2 == "unsat": res[i] = True
    return res
