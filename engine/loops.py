"""Loops with a symbolic trip count: inductive invariants.

Induction variables (constant step on every path) get their closed form init + step*k. Everything else the loop
modifies is forgotten, and then constrained by candidate facts: bounds taken from the comparisons of the loop,
and the facts the contract hints at (vf_ghost/vf_index/vf_value/vf_acc/vf_inv). A candidate is assumed only if it holds on
entry and is preserved by every iteration (checked by the solver, the set is shrunk until it is inductive)."""
import z3
import terms as T
from terms import *
from mem import *
import solver
from exec import Infeasible, Unsupported, Budget, SymLoop, Exec, Ctx

class View:
    """values at one point of the loop: k, state, phis"""
    def __init__(self, k, st, env): self.k, self.st, self.env = k, st, env

def scalar(v): return isinstance(v, (int, Poly, Fraction)) and not isinstance(v, bool)
from fractions import Fraction

def same(a, b):
    if a is b: return True
    if isinstance(a, (list,)) and isinstance(b, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Undef) or isinstance(b, Undef): return isinstance(a, Undef) and isinstance(b, Undef)
    if isinstance(a, Parts) or isinstance(b, Parts):
        return isinstance(a, Parts) and isinstance(b, Parts) and len(a.p) == len(b.p) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.p, b.p))
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if type(a) is bool or type(b) is bool: return type(a) is type(b) and a == b
    return a == b

def getval(ex, view, key):
    if key[0] == "phi": return view.env[key[1]]
    _, oid, off, sz = key
    o = view.st.mem.get(oid)
    if o is None or o.arrs is not None: return None
    c = o.cells.get(off)
    if c is None: return None
    if c[0] != sz: return None
    return c[1]

def setval(ex, view, key, v):
    if key[0] == "phi": view.env[key[1]] = v
    else:
        _, oid, off, sz = key
        o = view.st.wobj(oid)
        for co in [co for co in o.cells if co < off + sz and off < co + o.cells[co][0]]: del o.cells[co]
        o.cells[off] = (sz, v)

def diff_const(a, b):
    """b - a if it is a constant"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.o != b.o: return None
        d = sub(b.off, a.off)
        return d if isinstance(d, int) else None
    if scalar(a) and scalar(b):
        if T.isreal(a) or T.isreal(b): return None
        d = sub(b, a)
        return d if isinstance(d, int) else None
    return None

def advance(v, step, k):
    if isinstance(v, Ptr): return Ptr(v.o, add(v.off, scale(k, step)))
    return add(v, scale(k, step))

def fresh_like(ex, v, name, ty=None):
    if isinstance(v, (bool, z3.BoolRef)): return T.fresh_bool(name)
    if isinstance(v, Fraction) or (isinstance(v, Poly) and v.real): return T.fresh_real(name)
    if isinstance(v, (int, Poly)):
        n = 64
        if ty and ty[0] == "i": n = int(ty[1:])
        return T.fresh_int(name, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    if isinstance(v, Undef): return v
    if isinstance(v, list): return [fresh_like(ex, x, name) for x in v]
    if isinstance(v, Parts): return Parts([(n, fresh_like(ex, x, name, "i%d" % (8 * n))) for n, x in v.p])
    if isinstance(v, Ptr): raise Unsupported("loop-carried pointer with a changing target")
    raise Unsupported("loop-carried value")

def exec_loop_inv(ex, fn, ctx, st, env, h, prev, region):
    L = Loop(ex, fn, ctx, st, env, h, prev, region)
    return L.run()

class Loop:
    def __init__(self, ex, fn, ctx, st, env, h, prev, region):
        self.ex, self.fn, self.ctx, self.st, self.env, self.h, self.prev, self.region = ex, fn, ctx, st, env, h, prev, region
        self._mark = len(T.ATOMS)
        self.phis = [i for i in fn.blocks[h] if i["op"] == "phi"]
        self.ptype = {i["id"]: i["ty"] for i in self.phis}

    def run(self):
        ex, st = self.ex, self.st
        # values on entry
        ex.phis(self.fn, st, self.env, self.h, self.prev)
        self.entry = View(0, st, self.env)
        self.ivs = {}        # key -> step
        self.mod = {}        # key -> type (general)
        self.arrs = {}       # oid -> stride
        self.log = []; self.site = 0
        self.discover()
        outs = self.invariants()
        return outs

    # ------------------------------------------------------------ what changes
    def head(self, k, names=True):
        """state at the loop head after k iterations, modified things forgotten"""
        st = self.st.fork(); env = list(self.env)
        v = View(k, st, env)
        for oid, stride in self.arrs.items():
            o = st.wobj(oid)
            for f, a in list(o.arrs.items()):
                if (oid, f) in self.arrf or True:
                    o.arrs[f] = Arr(a.size, ("unk", {}))
            o.zero = o.zero
        for key, step in self.ivs.items():
            v0 = getval(self.ex, self.entry, key)
            setval(self.ex, v, key, advance(v0, step, k))
        for key, ty in self.mod.items():
            v0 = getval(self.ex, self.entry, key)
            nm = "h%s" % (key[1] if key[0] == "phi" else key[2])
            setval(self.ex, v, key, fresh_like(self.ex, v0, "loop" + str(nm), ty))
        return v

    def iterate(self, v, record, sound=False):
        c2 = self.ctx.copy(record=record, sound=sound, exitflag=None, loops=self.ctx.loops + ((self, v),), discover=self.ctx.discover or self.disc)
        st = v.st.fork(); env = list(v.env)
        return self.ex.run_region(self.fn, c2, [(st, env, self.h, -3)], self.region, self.h)

    # what the loop changes is remembered from visit to visit (only a starting point: it is checked every time)
    def objname(self, oid):
        n = self.st.mem[oid].name
        return (n, sum(1 for o in self.st.mem if isinstance(o, int) and isinstance(oid, int) and o > oid and self.st.mem[o].name == n))
    def save_shape(self):
        kn = lambda k: k if k[0] == "phi" else ("mem", self.objname(k[1])) + k[2:]
        self.ex.shapecache[(self.fn.name, self.h)] = ([(kn(k), v) for k, v in self.ivs.items()], [(kn(k), v) for k, v in self.mod.items()], [(self.objname(o), st) for o, st in self.arrs.items()])
    def load_shape(self):
        c = self.ex.shapecache.get((self.fn.name, self.h))
        if c is None: return False
        byname = {}
        for o in sorted((o for o in self.st.mem if isinstance(o, int)), reverse=True): byname.setdefault(self.st.mem[o].name, []).append(o)
        for o in self.st.mem:
            if not isinstance(o, int): byname[self.st.mem[o].name] = [o]
        def oid(nm):
            l = byname.get(nm[0], ())
            return l[nm[1]] if nm[1] < len(l) else None
        for nm, stride in c[2]:
            o = oid(nm)
            if o is None: continue
            ob = self.st.mem[o]
            if ob.freed: continue
            if ob.arrs is None:
                if stride is None or ob.cells or not ob.zero and not isinstance(ob.size, Poly): continue
                continue
            if ob.stride == stride: self.arrs[o] = stride
        for src, dst in ((c[0], self.ivs), (c[1], self.mod)):
            for k, v in src:
                if k[0] == "mem":
                    o = oid(k[1])
                    if o is None: continue
                    k = ("mem", o) + k[2:]
                v0 = getval(self.ex, self.entry, k)
                if v0 is None or isinstance(v0, (Undef, list)): continue
                if dst is self.mod and isinstance(v0, Ptr): continue
                dst[k] = v
        return True

    def discover(self):
        ex = self.ex
        self.disc = True; self.arrf = set()
        old = ex.cmp_log
        start = 1 if self.load_shape() else 0
        for rnd in range(start, 14):
            ex.cmp_log = []
            if rnd == 0:
                v = View(0, self.st.fork(), list(self.env)); k = 0
            else:
                k = T.fresh_int("k", 0, 1 << 62)
                v = self.head(k)
                v.st.vals["kdef"] = True
            outs = self.iterate(v, False)
            changed, backs = self.absorb(outs, v)
            self.log = ex.cmp_log
            if not changed and rnd > 0: break
            if not backs and rnd == 0:
                continue
        else: raise Unsupported("loop analysis did not converge")
        if old is not None: old.extend(self.log)
        ex.cmp_log = old
        self.disc = False
        self.save_shape()

    def absorb(self, outs, v):
        """adds to mod/ivs/arrs what changed between the loop head v and the back edges of outs"""
        ex = self.ex
        backs = [o for o in outs if o[0] == "back"]
        changed = False
        for o in backs:
            bst, benv, bprev = o[1], o[2], o[3]
            ex.phis(self.fn, bst, benv, self.h, bprev)
            b = View(None, bst, benv)
            for i in self.phis:
                key = ("phi", i["id"])
                changed |= self.classify(key, v, b, i["ty"])
            for oid, o0 in v.st.mem.items():
                o1 = bst.mem.get(oid)
                if o1 is o0 or o1 is None: continue
                if o1.freed != o0.freed: raise Unsupported("object freed inside a loop")
                if o1.arrs is not None:
                    if o0.arrs is None or o0.stride != o1.stride:
                        ex.force_array(self.st, oid, o1.stride); self.st.own.discard(oid)
                        for f, a in o1.arrs.items():
                            w = self.st.wobj(oid)
                            if f not in w.arrs: w.arrs[f] = Arr(a.size, ("zero",) if w.zero else ("unk", {}))
                        # drop keys of cells of that object
                        for kk in [kk for kk in list(self.mod) + list(self.ivs) if kk[0] == "mem" and kk[1] == oid]:
                            self.mod.pop(kk, None); self.ivs.pop(kk, None)
                        self.arrs[oid] = o1.stride; changed = True
                    else:
                        for f, a in o1.arrs.items():
                            a0 = o0.arrs.get(f)
                            if a0 is not a and not (a0 is not None and a0.base is a.base and a0.layers == a.layers):
                                if f not in self.st.mem[oid].arrs:
                                    w = self.st.wobj(oid); w.arrs[f] = Arr(a.size, ("zero",) if w.zero else ("unk", {})); changed = True
                                if oid not in self.arrs: self.arrs[oid] = o1.stride; changed = True
                    continue
                if o1.size is not o0.size and not same(o1.size, o0.size): raise Unsupported("object resized in loop")
                for off in set(o0.cells) | set(o1.cells):
                    c0, c1 = o0.cells.get(off), o1.cells.get(off)
                    if c0 is c1: continue
                    if c1 is None or c0 is None:
                        if c0 is None:
                            # written (or lazily read) inside the loop, not initialised before: dead stack slots
                            if o1.kind == "stack" :
                                over = [co for co in o0.cells if co < off + c1[0] and off < co + o0.cells[co][0]]
                                if not over and not o0.zero:
                                    # make it exist at entry as unknown
                                    w = self.st.wobj(oid); w.cells[off] = (c1[0], UNDEF if isinstance(c1[1], Ptr) else ex.fresh_for(c1[1], c1[0])); changed = True
                                    continue
                            w = self.st.wobj(oid)
                            if any(co < off + c1[0] and off < co + w.cells[co][0] for co in w.cells): raise Unsupported("layout change in loop")
                            x = c1[1]
                            w.cells[off] = (c1[0], T_zero(x) if o0.zero else (UNDEF if isinstance(x, (Ptr, Undef)) else ex.fresh_for(x, c1[0]))); changed = True
                            continue
                        raise Unsupported("layout change in loop of " + str(o0.name))
                    if c0[0] != c1[0]: raise Unsupported("layout change in loop of " + str(o0.name))
                    if same(c0[1], c1[1]): continue
                    changed |= self.classify(("mem", oid, off, c0[0]), v, b, "i%d" % (8 * c0[0]))
        return changed, backs

    def classify(self, key, v, b, ty):
        v0 = getval(self.ex, v, key); v1 = getval(self.ex, b, key)
        if same(v0, v1): return False
        if key in self.mod: return False
        if v1 is None or v0 is None: raise Unsupported("loop memory layout")
        d = diff_const(v0, v1)
        if key in self.ivs:
            if d == self.ivs[key]: return False
            if isinstance(v0, Ptr): raise Unsupported("pointer advanced irregularly")
            del self.ivs[key]; self.mod[key] = ty; return True
        if d is not None and d != 0:
            self.ivs[key] = d; return True
        if isinstance(v0, Undef):
            # dead on entry; stays unknown
            if isinstance(v1, Ptr): return False
            setval(self.ex, self.entry, key, fresh_like(self.ex, v1, "undef", ty)) if key[0] == "phi" else setval(self.ex, View(0, self.st, self.env), key, fresh_like(self.ex, v1, "undef", ty))
            self.mod[key] = ty
            return True
        if isinstance(v0, Ptr) and isinstance(v1, Ptr):
            # a pointer that is overwritten before use in every iteration (temporaries)
            if key[0] == "mem" and self.st.mem[key[1]].kind == "stack":
                setval(self.ex, View(0, self.st, self.env), key, UNDEF); return True
            raise Unsupported("loop-carried pointer with a changing target")
        self.mod[key] = ty
        return True

    # ------------------------------------------------------------ invariants
    def invariants(self, again=0):
        ex = self.ex
        norm = {o: i for i, o in enumerate(sorted({k[1] for k in list(self.mod) + list(self.ivs) if k[0] == "mem"}, key=str))}
        self.knn = lambda key: "%s%s" % (key[0], key[1:] if key[0] == "phi" else (norm.get(key[1], -1),) + key[2:])
        vl = self.st.vals
        sig = (self.fn.name, self.h, self.ctx.discover, tuple(sorted(map(self.knn, self.mod))), len(self.arrs), tuple(len(lp.ivs) for lp, _ in self.ctx.loops), tuple(len(vl.get(x, ())) for x in ("ghost", "index", "value", "acc", "inv")))
        # outside of any loop, calls with different arguments are told apart (the cache only tells where the search starts)
        if not self.ctx.loops: self.site = hash(tuple((v if not isinstance(v, Poly) else v.key()) for v in (self.env[a[0]] for a in self.fn.args) if isinstance(v, (int, Fraction, Poly))))
        else: self.site = self.ctx.loops[0][0].site
        sig += (self.site,)
        cands = self.candidates()
        if self.ctx.discover:
            cands = [c for c in cands if c[0] == "bound"]
        hardk = ('acc', 'inv', 'hint', 'arr') if ex.opts.get('precise') else ('acc', 'inv', 'arr') if ex.opts.get('precisearr') else ('acc', 'inv')
        isacc = lambda idx: [cands[i][0] in hardk for i in idx]
        alive = list(range(len(cands)))
        cached = ex.loopcache.get(sig)
        if cached is not None:
            alive = [i for i in alive if cands[i][1] in cached]
        # entry
        gs = [self.evalc(cands[i], self.entry) for i in alive]
        res = solver.prove_many(self.st.pc, gs, 3000, isacc(alive))
        alive = [i for i, r in zip(alive, res) if r]
        if cached is None:
            # search: which candidates are inductive; the bounds first, then the facts that depend on them
            others = [i for i in alive if cands[i][0] != "bound"]
            alive = [i for i in alive if cands[i][0] == "bound"]
            stages = ([True] if self.loops_inside() or others else []) + [False] if not self.ctx.discover else [True]
            for st_ in stages:
                if st_ is False: alive = alive + others
                self.disc = st_
                for rnd in range(12):
                    v = self.assume_head(cands, alive)
                    if v is None:
                        if ex.opts.get("verbose"): print("   none", self.fn.looploc[self.h][1], st_, len(alive))
                        break
                    dropped, _ = self.not_preserved(cands, alive, v, self.iterate(v, False), isacc)
                    if ex.opts.get("verbose"): print("   srch", self.fn.looploc[self.h][1], st_, rnd, len(_), "alive", len(alive), "drop", len(dropped))
                    if not dropped: break
                    alive = [i for i in alive if i not in dropped]
                else: raise Unsupported("invariants did not stabilise")
                if st_ and not others and not self.loops_inside(): break
            self.disc = False
            ex.loopcache[sig] = {cands[i][1] for i in alive}
        # final pass. Where it counts (sound), it checks that the facts assumed at the head hold again at every back edge,
        # with the loops inside analysed soundly too, and that nothing changes that was not forgotten at the head
        for rnd in range(12):
            mark = len(ex.obls); cov = dict(ex.covers); info = dict(ex.loopinfo)
            v = self.assume_head(cands, alive)
            if v is None: return []
            outs = self.iterate(v, self.ctx.record, self.ctx.sound)
            if not self.ctx.sound: break
            changed, backs = self.absorb(outs, v)
            dropped = set()
            if not changed: dropped, _ = self.not_preserved(cands, alive, v, outs, isacc, phis=False)
            if not changed and not dropped: break
            del ex.obls[mark:]; ex.covers = cov; ex.loopinfo = info
            if ex.opts.get("verbose"): print("   redo", self.fn.dem[:40], self.fn.looploc[self.h][1], "changed" if changed else "", sorted(cands[i][1] for i in dropped)[:12])
            if changed:
                if again > 6: raise Unsupported("loop analysis did not converge")
                ex.loopcache.pop(sig, None); self.save_shape()
                return self.invariants(again + 1)
            alive = [i for i in alive if i not in dropped]
        else: raise Unsupported("invariants did not stabilise")
        if self.ctx.record:
            ex.loopinfo[(self.fn.name, self.h)] = dict(where="%s:%s" % self.fn.looploc[self.h], fn=self.fn.dem[:120], invariants=sorted(cands[i][1] for i in alive)[:40], ivs=len(self.ivs), havoced=len(self.mod) + len(self.arrs))
        return [o for o in outs if o[0] != "back"]

    def loops_inside(self): return True

    def assume_head(self, cands, alive):
        k = T.fresh_int("k", 0, 1 << 62)
        v = self.head(k); self.k = k
        try:
            for i in alive:
                g = self.evalc(cands[i], v)
                if g is not None: v.st.assume(g)
        except Infeasible: return None
        return v

    def not_preserved(self, cands, alive, v, outs, isacc, phis=True):
        dropped = set(); backs = [o for o in outs if o[0] == "back"]
        for o in backs:
            bst, benv, bprev = o[1], o[2], o[3]
            if phis: self.ex.phis(self.fn, bst, benv, self.h, bprev)
            b = View(add(v.k, 1), bst, benv)
            todo = [i for i in alive if i not in dropped]
            gs = [self.evalc(cands[i], b) for i in todo]
            res = solver.prove_many(bst.pc, gs, 3000, isacc(todo))
            for i, r in zip(todo, res):
                if not r: dropped.add(i)
        return dropped, backs

    def evalc(self, c, view):
        try: return c[2](view)
        except (Unsupported, KeyError, TypeError): return False

    def candidates(self):
        ex = self.ex; out = []; seen = set()
        def addc(kind, name, f):
            if name not in seen: seen.add(name); out.append((kind, name, f))
        kn = self.knn
        entry = self.entry
        def G(view, key):
            v = getval(ex, view, key)
            if isinstance(v, Parts): v = ex.flat(view.st, v)
            if isinstance(v, Ptr): v = v.off
            if isinstance(v, (bool, z3.BoolRef)): v = T.b2i(v)
            if v is None or isinstance(v, (Undef, list)): raise Unsupported("")
            return v
        ivk = list(self.ivs)
        # --- bounds from the comparisons of the loop
        terms = []
        for (pred, a, b) in self.log:
            for x in (a, b):
                if isinstance(x, (int, Poly)) and not T.isreal(x) and not any(x == t for t in terms) and self.invariant_term(x): terms.append(x)
        terms = terms[:14]
        for key in ivk:
            s = self.ivs[key]
            for ti, t in enumerate(terms):
                for pred in (("le",) if s > 0 else ("ge",)):
                    for off in (0, 1, -1):
                        tt = add(t, off)
                        addc("bound", "%s %s t%d%+d" % (kn(key), pred, ti, off), lambda vw, key=key, tt=tt, pred=pred: cmp(pred, G(vw, key), tt))
                        if off == 0: addc("bound", "k=0 or %s %s t%d%+d" % (kn(key), pred, ti, off), lambda vw, key=key, tt=tt, pred=pred: b_or(cmp("eq", vw.k, 0), cmp(pred, G(vw, key), tt)))
        for key in self.mod:
            v0 = None
            try: v0 = G(entry, key)
            except Unsupported: continue
            addc("bound", "%s>=0" % kn(key), lambda vw, key=key: cmp("ge", G(vw, key), 0))
            addc("bound", "%s>=v0" % kn(key), lambda vw, key=key, v0=v0: cmp("ge", G(vw, key), v0))
            addc("bound", "%s<=v0" % kn(key), lambda vw, key=key, v0=v0: cmp("le", G(vw, key), v0))
            if not T.isreal(v0):
                addc("bound", "%s<=v0+k" % kn(key), lambda vw, key=key, v0=v0: cmp("le", G(vw, key), add(v0, vw.k)))
                for ti, t in enumerate(terms):
                    addc("bound", "%s<=t%d" % (kn(key), ti), lambda vw, key=key, t=t: cmp("le", G(vw, key), t))
                    addc("bound", "%s>=t%d" % (kn(key), ti), lambda vw, key=key, t=t: cmp("ge", G(vw, key), t))
                    addc("bound", "%s<t%d" % (kn(key), ti), lambda vw, key=key, t=t: cmp("lt", G(vw, key), t))
        # values of outer induction variables
        outer = []; self.ogroup = {}; self._okeep = outer
        for (lp, vw) in self.ctx.loops:
            n0 = len(outer)
            for key in lp.ivs:
                try: outer.append(("o" + kn(key), G(vw, key)))
                except Unsupported: pass
            if getattr(lp, "kpool", False): outer.append(("ok", vw.k))
            for n, x in outer[n0:]: self.ogroup[n, id(x)] = id(lp)
        vals = self.st.vals
        ghosts = vals.get("ghost", ()); hints = vals.get("value", ()); idxs = vals.get("index", ()); accs = vals.get("acc", ()); invs = vals.get("inv", ())
        # the iteration number is one of the induction variables already?
        kpool = not any(self.ivs[key] == 1 and type(getval(ex, entry, key)) is int and getval(ex, entry, key) == 0 for key in ivk)
        self.kpool = kpool
        # --- unchanged / hint-valued scalars, with ghost guards
        def guards():
            """(name, view -> bool) 'this loop has already gone past the ghost'"""
            gl = []
            for gi, g in enumerate(ghosts):
                for key in ivk + [kk for kk in self.mod if self.isint(kk)]:
                    isptr = key in self.ivs and isinstance(getval(ex, entry, key), Ptr)
                    if isptr: continue
                    s = self.ivs.get(key, 1)
                    if s > 0:
                        gl.append(("g%d<%s" % (gi, kn(key)), lambda vw, g=g, key=key: b_and(cmp("lt", g, G(vw, key)), cmp("ge", g, G(entry, key)))))
                    else:
                        gl.append(("g%d>%s" % (gi, kn(key)), lambda vw, g=g, key=key: b_and(cmp("gt", g, G(vw, key)), cmp("le", g, G(entry, key)))))
                if kpool: gl.append(("g%d<k" % gi, lambda vw, g=g: b_and(cmp("ge", g, 0), cmp("lt", g, vw.k))))
            base = list(gl)
            for gi, g in enumerate(ghosts):
                for on, ov in outer:
                    for n, f in base:
                        if n.startswith("g%d<" % gi) or n.startswith("g%d>" % gi): continue
                        gl.append(("%s&g%d=%s" % (n, gi, on), lambda vw, f=f, g=g, ov=ov: b_and(f(vw), cmp("eq", g, ov))))
            return gl
        glist = guards() if ghosts else []
        def eqv(x, y):
            if T.isreal(x) or T.isreal(y): return cmp("eq", toreal(x), toreal(y))
            return cmp("eq", x, y)
        for key in self.mod:
            try: v0 = G(entry, key)
            except Unsupported: continue
            addc("hint", "%s=v0" % kn(key), lambda vw, key=key, v0=v0: eqv(G(vw, key), v0))
            for hi, hv in enumerate(hints):
                for n, f in glist:
                    addc("hint", "%s: %s?hint%d:v0" % (kn(key), n, hi), lambda vw, key=key, f=f, hv=hv, v0=v0: self.ite_eq(f(vw), G(vw, key), hv, v0, eqv))
                addc("hint", "%s in {v0,hint%d}" % (kn(key), hi), lambda vw, key=key, hv=hv, v0=v0: b_or(eqv(G(vw, key), v0), eqv(G(vw, key), hv)))
        # --- accumulators
        for ai, (f, nidx, params) in enumerate(accs):
            import itertools
            pool = [(kn(key), (lambda vw, key=key: G(vw, key)), G(entry, key)) for key in ivk if not isinstance(getval(ex, entry, key), Ptr)]
            if kpool: pool.append(("k", lambda vw: vw.k, 0))
            opool = [(n, (lambda vw, x=x: x), x) for n, x in outer if not any(False for _ in ())] + [("0", lambda vw: 0, 0)]
            for key in self.mod:
                try: v0 = G(entry, key)
                except Unsupported: continue
                for combo in self.combos(pool, opool, nidx):
                    nm = "%s-acc%d(%s)" % (kn(key), ai, ",".join(c[0] for c in combo))
                    def g(vw, key=key, combo=combo, f=f, params=params, v0=v0):
                        a1 = self.spec(f, [c[1](vw) for c in combo] + list(params), vw); a0 = self.spec(f, [c[2] for c in combo] + list(params), vw)
                        return eqv(sub(toreal(G(vw, key)), toreal(v0)), sub(toreal(a1), toreal(a0)))
                    addc("acc", nm, g)
        # --- predicates given by the contract: inv(scalar..., iv..., params...)
        for ii, (f, nsc, nidx, params) in enumerate(invs):
            import itertools
            pool = [(kn(key), (lambda vw, key=key: G(vw, key)), G(entry, key)) for key in ivk if not isinstance(getval(ex, entry, key), Ptr)]
            if kpool: pool.append(("k", lambda vw: vw.k, 0))
            opool = [(n, (lambda vw, x=x: x), x) for n, x in outer] + [("0", lambda vw: 0, 0)]
            fargs = ex.funcs[f].args
            scs = []
            for key in self.mod:
                try: scs.append((key, G(entry, key)))
                except Unsupported: pass
            def okty(v, i): return T.isreal(v) == (fargs[i][1] in ("f64", "f32"))
            for tup in itertools.permutations(scs, nsc):
                if not all(okty(v0, i) for i, (key, v0) in enumerate(tup)): continue
                for combo in self.combos(pool, opool, nidx):
                    nm = "inv%d(%s;%s)" % (ii, ",".join(kn(kk) for kk, _ in tup), ",".join(c[0] for c in combo))
                    def g(vw, tup=tup, combo=combo, f=f, params=params):
                        return self.pred(f, [G(vw, kk) for kk, _ in tup] + [c[1](vw) for c in combo] + list(params), vw)
                    addc("inv", nm, g)
        # --- array cells at the hinted indices
        for oi, (oid, stride) in enumerate(sorted(self.arrs.items())):
            o0 = self.st.mem[oid]
            for f in o0.arrs:
                for xi, ix in enumerate(idxs):
                    def rd(vw, oid=oid, f=f, ix=ix):
                        o = vw.st.mem[oid]; a = o.arrs.get(f)
                        if a is None: a = Arr(o0.arrs[f].size, ("zero",) if o.zero else ("unk", {}))
                        ty = self.arrty(oid, f)
                        return ex.arr_load(vw.st, self.ctx, a, ix, ty)
                    try: a0 = rd(entry)
                    except Unsupported: continue
                    if isinstance(a0, (Undef, Ptr, Parts, list)): continue
                    def beq(x, y):
                        if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
                            x = x if isinstance(x, (bool, z3.BoolRef)) else cmp("ne", x, 0); y = y if isinstance(y, (bool, z3.BoolRef)) else cmp("ne", y, 0)
                            return T.b_eq(x, y)
                        return eqv(x, y)
                    an = "arr%s.%d[i%d]" % (oi, f, xi)
                    addc("arr", an + "=a0", lambda vw, rd=rd, a0=a0: beq(rd(vw), a0))
                    for hi, hv in enumerate(hints):
                        if isinstance(hv, (bool, z3.BoolRef)) != isinstance(a0, (bool, z3.BoolRef)): pass
                        for n, gf in glist:
                            addc("arr", "%s: %s?hint%d:a0" % (an, n, hi), lambda vw, rd=rd, gf=gf, hv=hv, a0=a0: self.ite_eq(gf(vw), rd(vw), hv, a0, beq))
                        # index order guards: everything below the current write position
                        for key in ivk:
                            v0 = getval(ex, entry, key)
                            if isinstance(v0, Ptr):
                                if v0.o != oid: continue
                                addc("arr", "%s: i<p%s?hint%d:a0" % (an, kn(key), hi), lambda vw, rd=rd, key=key, hv=hv, a0=a0, ix=ix, stride=stride, v0=v0:
                                     self.ite_eq(b_and(cmp("lt", scale(ix, stride), G(vw, key)), cmp("ge", scale(ix, stride), v0.off)) if self.ivs[key] > 0 else b_and(cmp("ge", scale(ix, stride), G(vw, key)), cmp("lt", scale(ix, stride), v0.off)), rd(vw), hv, a0, beq))
                    for ii, (fp, nsc, nidx, params) in enumerate(invs):
                        if nsc != 1 or (ex.funcs[fp].args[0][1] in ("f64", "f32")) != (T.isreal(a0) or self.arrty(oid, f) in ("f64", "f32")): continue
                        pool = [(kn(key), (lambda vw, key=key: G(vw, key)), G(entry, key)) for key in ivk if not isinstance(getval(ex, entry, key), Ptr)]
                        if kpool: pool.append(("k", lambda vw: vw.k, 0))
                        opool = [(n, (lambda vw, x=x: x), x) for n, x in outer] + [("0", lambda vw: 0, 0)]
                        for combo in self.combos(pool, opool, nidx):
                            def g(vw, rd=rd, combo=combo, f=fp, params=params):
                                x = rd(vw)
                                if isinstance(x, (bool, z3.BoolRef)): x = T.b2i(x)
                                return self.pred(f, [x] + [c[1](vw) for c in combo] + list(params), vw)
                            addc("inv", "%s-inv%d(%s)" % (an, ii, ",".join(c[0] for c in combo)), g)
                    for ai, (fsp, nidx, params) in enumerate(accs):
                        pool = [(kn(key), (lambda vw, key=key: G(vw, key)), G(entry, key)) for key in ivk if not isinstance(getval(ex, entry, key), Ptr)]
                        if kpool: pool.append(("k", lambda vw: vw.k, 0))
                        opool = [(n, (lambda vw, x=x: x), x) for n, x in outer] + [("0", lambda vw: 0, 0)]
                        for combo in self.combos(pool, opool, nidx):
                            def g(vw, rd=rd, combo=combo, f=fsp, params=params, a0=a0):
                                s1 = self.spec(f, [c[1](vw) for c in combo] + list(params), vw); s0 = self.spec(f, [c[2] for c in combo] + list(params), vw)
                                return eqv(sub(toreal(rd(vw)), toreal(a0)), sub(toreal(s1), toreal(s0)))
                            addc("arr", "%s-acc%d(%s)" % (an, ai, ",".join(c[0] for c in combo)), g)
        return out[:1200]

    def arrty(self, oid, f):
        ex = self.ex
        a = self.st.mem[oid].arrs[f]
        for l in reversed(a.layers):
            if l[0] in ("pt",): v = l[2]
            elif l[0] == "fill": v = l[3]
            else: continue
            if T.isreal(v): return "f64" if a.size == 8 else "f32"
            if isinstance(v, (bool, z3.BoolRef)): return "i8" if a.size == 1 else "i%d" % (8 * a.size)
            if isinstance(v, (int, Poly)): break
        ty = self.ex.arrkind.get((oid, f)) or self.ex.arrkind.get(a.size)
        return ty or "i%d" % (8 * a.size)

    def combos(self, pool, opool, n):
        """index tuples: one index of this loop, the others of enclosing loops or 0. From three indices on they are
        taken in nesting order, innermost first (0 where a loop is not there)"""
        import itertools
        if n == 1: return [(p,) for p in pool]
        res = []
        if n <= 2:
            for p in pool:
                for rest in itertools.product(opool, repeat=n - 1):
                    for pos in range(n):
                        l = list(rest); l.insert(pos, p); res.append(tuple(l))
            return res[:300]
        zero = [o for o in opool if o[0] == "0"][0]
        outer = list(reversed([o for o in opool if o[0] != "0"]))      # innermost enclosing loop first
        nl = len({self.ogroup[o[0], id(o[2])] for o in outer})
        # as many enclosing loops as there are: the innermost loop has the first index
        for p in pool:
            for pos in range(n):
                m = min(nl, n - pos - 1)
                if pos and nl > n - pos - 1: continue
                for oo in itertools.combinations(outer, m):
                    if len({self.ogroup[o[0], id(o[2])] for o in oo}) < m: continue
                    l = [zero] * n; l[pos] = p; l[pos + 1:pos + 1 + m] = oo
                    res.append(tuple(l))
        return res[:300]

    def ite_eq(self, c, x, a, b, eqv):
        return b_and(b_imp(c, eqv(x, a)), b_imp(b_not(c), eqv(x, b)))

    def isint(self, key):
        v = getval(self.ex, self.entry, key)
        return isinstance(v, (int, Poly)) and not isinstance(v, bool) and not T.isreal(v)

    def invariant_term(self, x):
        """built only from atoms that existed before the loop analysis"""
        if isinstance(x, int): return True
        names = self.loopatoms()
        for m in x.t:
            for i in m:
                if i in names: return False
        return True

    def loopatoms(self):
        # atoms of values that change: those not mentioned by entry state are created later than the entry
        return _After(self._mark)

    def spec(self, f, args, vw):
        from builtins_model import spec_call
        return spec_call(self.ex, self.ctx, vw.st, None, None, f, args)

    def pred(self, f, args, vw):
        ex = self.ex
        c = Ctx(); c.record = False
        s = vw.st.fork()
        outs = ex.run_fn(s, c, f, args)
        r = None
        n = len(vw.st.pc)
        for kind, s2, v in outs:
            if kind != "ret": raise Unsupported("predicate")
            v = ex.conv(v, "i1")
            cnd = T.b_and(*s2.pc[n:])
            r = v if r is None else T.b_ite(cnd, v, r)
        return r

class _After:
    def __init__(self, m): self.m = m
    def __contains__(self, i): return i >= self.m

def T_zero(x):
    if T.isreal(x): return Fraction(0)
    if isinstance(x, Ptr): return NULL
    return 0
