"""Symbolic execution / verification condition generation over LLVM IR (JSON from irdump)."""
import sys, time, struct, re
from fractions import Fraction
import z3
import terms as T
from terms import *
from mem import *
import solver

sys.setrecursionlimit(100000)

class SymLoop(Exception):
    def __init__(self, header): self.header = header
class Infeasible(Exception): pass
class Budget(Exception): pass

class State:
    __slots__ = ("mem", "own", "pc", "vals")
    def __init__(self):
        self.mem = {}; self.own = set(); self.pc = (); self.vals = {}
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.own = set(); self.own = set(); s.pc = self.pc; s.vals = dict(self.vals)
        return s
    def obj(self, oid):
        return self.mem.get(oid)
    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.clone(); self.mem[oid] = o; self.own.add(oid)
        return o
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        if z3.is_and(c):
            for x in c.children(): self.assume(x)
            return
        for p in self.pc:
            if p.get_id() == c.get_id(): return
        T._keep.append(c)
        self.pc = self.pc + (c,)

class Ctx:
    """dynamic execution context"""
    __slots__ = ("record", "loops", "bounded", "depth", "exitflag", "discover", "sound")
    # sound: False in the passes of the loop analysis that only look for invariants (everything is checked again in the final pass)
    def __init__(self): self.record = True; self.loops = (); self.bounded = 0; self.depth = 0; self.exitflag = None; self.discover = False; self.sound = True
    def copy(self, **kw):
        c = Ctx(); c.record = self.record; c.loops = self.loops; c.bounded = self.bounded; c.depth = self.depth; c.exitflag = self.exitflag; c.discover = self.discover; c.sound = self.sound
        for k, v in kw.items(): setattr(c, k, v)
        return c

class Obligation:
    __slots__ = ("name", "loc", "status", "how", "time", "model", "pc", "kind", "goal", "inductive", "vals")

class Func:
    def __init__(self, name, j):
        self.name = name; self.j = j; self.decl = j.get("decl", False); self.dem = j["dem"]
        if not self.decl:
            self.blocks = j["blocks"]; self.args = j["args"]; self.nvals = j["nvals"]
            self.loops = {}   # header -> set(blocks)
            self.looploc = {}
            for l in j["loops"]:
                self.loops[l["h"]] = frozenset(l["b"]); self.looploc[l["h"]] = (l.get("fl", "?"), l.get("ln", 0))

def demname(d):
    """demangled name without return type / arguments"""
    return d

_negids = {}
def negid(p):
    i = p.get_id()
    r = _negids.get(i)
    if r is None:
        r = p.arg(0).get_id() if z3.is_not(p) else -1
        _negids[i] = r; T._keep.append(p)
    return r

class Exec:
    def __init__(self, module, opts=None):
        self.m = module
        self.funcs = {n: Func(n, j) for n, j in module["funcs"].items()}
        self.globals = module["globals"]
        self.obls = []
        self.covers = {}
        self.oid = 100
        self.opts = dict(fuel=2, unroll=6000, max_paths=4000, query_ms=4000, bounds=True, nsw=False, steps=4000000, merge=True)
        if opts: self.opts.update(opts)
        self.hints = dict(ghost=[], value=[], index=[], acc=[], rel=[])
        self.nondets = {}       # name -> value
        self.nd_order = []
        self.ufs = {}           # name -> z3 func
        self.uf_apps = []       # (name, args values, result value)
        self.uf_range = {}
        self.steps = 0; self.mpre = None
        self.deadline = None
        self.loopcache = {}; self.shapecache = {}; self.symloops = set()
        self.loopinfo = {}      # for evidence
        self.trusted = set()    # external models used
        self.fn_executed = set()
        self.spec_done = {}
        self.regions2d = {}
        self.notes = set()
        self.ginit_done = False
        self.trace = []
        self.contracts = []     # (regex, harness function name)
        self.contract_used = set()
        self.spec_fuel = self.opts["fuel"]; self.spec_depth = 0; self.spec_mem = {}; self.bound_request = 0
        self.cmp_log = None
        from builtins_model import BUILTINS, PATTERNS
        self.builtins = BUILTINS; self.patterns = PATTERNS
        self._extcache = {}

    def spec_stack_deep(self): return self.spec_depth > 80
    # ---------------------------------------------------------------- obligations
    def oblige(self, st, ctx, name, goal, kind, loc=""):
        if not ctx.record:
            return
        if isinstance(goal, bool) and goal and kind == "bounds": return
        o = Obligation(); o.name, o.kind, o.loc = name, kind, loc
        t0 = time.time()
        r, mdl, how = solver.prove(st.pc, goal, self.opts["query_ms"], final=(kind != "bounds"))
        if r != "proved" and kind == "bounds":
            r, mdl, how = solver.prove(st.pc, goal, self.opts["query_ms"], final=True)
        o.status, o.how, o.time, o.model = r, how, time.time() - t0, mdl
        o.pc = st.pc if r != "proved" else None; o.goal = goal if r != "proved" else None
        o.vals = None
        o.inductive = len(ctx.loops) > 0 or any(True for _ in ())
        self.obls.append(o)
        if self.opts.get("verbose"):
            print("   [%s] %s %s %s %.2fs" % (r, kind, name, loc, o.time), flush=True)
        if r != "proved" and self.opts.get("stop_on_fail"): raise StopIteration

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, name, zero=False, kind="heap"):
        self.oid += 1
        o = Obj(size, name, zero, kind)
        st.mem[self.oid] = o; st.own.add(self.oid)
        return Ptr(self.oid, 0)

    def gobj(self, st, name):
        oid = ("g", name)
        if oid not in st.mem:
            if name not in self.globals: raise Unsupported("global " + name)
            g = self.globals[name]
            o = Obj(g["size"], name, bool(g.get("zero")), "global")
            st.mem[oid] = o; st.own.add(oid)
            o.const = g["const"]
            if g.get("extern"):
                o.kind = "extern"
            for off, ty, c in g.get("init", ()):
                o.cells[off] = (tysize(ty), self.const(st, c, ty))
        return oid

    def const(self, st, c, ty=None):
        k = c[0]
        if k == "i":
            v = int(c[2])
            return (v != 0) if c[1] == 1 else v
        if k == "f": 
            d = float.fromhex(c[2])
            if d != d or d in (float("inf"), float("-inf")):
                self.notes.add("NaN/infinity constants are treated as arbitrary numbers beyond every finite value")
                if d == float("inf"): return Fraction(10) ** 400
                if d == float("-inf"): return -(Fraction(10) ** 400)
                return T.fresh_real("nan")
            return Fraction(d)
        if k == "n": return NULL
        if k == "g":
            n = c[1]
            if n in self.funcs or n.startswith("llvm."): return Ptr(("f", n), c[2])
            return Ptr(self.gobj(st, n), c[2])
        if k == "u": return self.aggr(c[1], UNDEF)
        if k == "z": return self.aggr(c[1], None)
        if k == "a": return [self.const(st, e) for e in c[1]]
        if k == "ce":
            if c[1] == "gep":
                p = self.const(st, c[2]); return Ptr(p.o, add(p.off, c[3]))
            if c[1] in ("bitcast", "addrspacecast", "ptrtoint", "inttoptr"):
                return self.const(st, c[2][0])
        raise Unsupported("constant %r" % (c,))

    def aggr(self, ty, fill):
        if ty[0] in "{[<":
            return [self.aggr(t, fill) for t in split_ty(ty)]
        return fill if fill is not None else zero_of(ty)

    def check_ptr(self, st, ctx, p, size, what, loc):
        if not isinstance(p, Ptr):
            if isinstance(p, Undef): raise Unsupported("%s through undefined pointer %s" % (what, loc))
            raise Unsupported("%s through non-pointer %r %s" % (what, type(p), loc))
        o = st.mem.get(p.o)
        if o is None:
            if p.o == 0:
                self.oblige(st, ctx, "null pointer access", False, "bounds", loc)
                raise Infeasible()
            if isinstance(p.o, tuple) and p.o[0] == "f": raise Unsupported("access to code")
            raise Unsupported("unknown object %r" % (p.o,))
        if o.freed:
            self.oblige(st, ctx, "use after free", False, "bounds", loc)
            raise Infeasible()
        if o.size is not None and self.opts["bounds"] and not ctx.discover:
            if isinstance(p.off, int) and isinstance(o.size, int):
                if p.off < 0 or p.off + size > o.size:
                    self.oblige(st, ctx, "out-of-bounds %s of %s" % (what, o.name), False, "bounds", loc)
                    raise Infeasible()
            elif ctx.record:
                g = b_and(cmp("ge", p.off, 0), cmp("le", add(p.off, size), o.size))
                self.oblige(st, ctx, "%s of %s within bounds" % (what, o.name), g, "bounds", loc)
                if not isinstance(g, bool): st.assume(g)
        return o

    def split_off(self, st, o, off, size):
        """a member of an object that is no uniform array, selected by truth values: one case per value of these"""
        from math import gcd
        g = 0
        for m, c in off.t.items():
            if m != (): g = gcd(g, abs(c))
        seen = {}
        for co, (sz, v) in o.cells.items():
            if co % g + sz > g or seen.setdefault(co % g, sz) != sz or isinstance(v, Ptr): break
        else: return off
        for m, c in list(off.t.items()):
            if m == (): continue
            if len(m) != 1 or T.ATOMS[m[0]].b2i is None:
                return off
        r = off.t.get((), 0)
        for m, c in off.t.items():
            if m == (): continue
            b = T.ATOMS[m[0]].b2i
            if solver.feasible(st.pc, b) and solver.feasible(st.pc, b_not(b)): raise NeedFork(b)
            if solver.feasible(st.pc, b): r += c
        return r

    def to_array(self, st, oid, off, size):
        """switch an object to array mode so that `off` can be accessed"""
        o = st.mem[oid]
        g = 0
        from math import gcd
        for m, c in off.t.items():
            if m != (): g = gcd(g, abs(c))
        if o.arrs is None:
            o = st.wobj(oid)
            o.stride = g
            o.arrs = {}
            cells = o.cells; o.cells = {}
            for co, (sz, v) in sorted(cells.items()):
                f = co % g
                if f + sz > g: raise Unsupported("array stride of " + o.name)
                a = o.arrs.get(f)
                if a is None: a = Arr(sz, ("zero",) if o.zero else ("unk", {}))
                if a.size != sz: raise Unsupported("array element size of " + o.name)
                o.arrs[f] = a.with_(("pt", co // g, v))
        elif g % o.stride:
            raise Unsupported("array stride change of %s (%d -> %d)" % (o.name, o.stride, g))
        return st.mem[oid]

    def arr_index(self, o, off, size):
        s = o.stride
        if isinstance(off, int): idx, f = off // s, off % s
        else:
            f = off.t.get((), 0) % s
            idx = divpoly(sub(off, f), s, "f")
        if f + size > s: raise Unsupported("access across array elements of " + o.name)
        return idx, f

    def load(self, st, ctx, p, ty, loc=""):
        size = tysize(ty)
        o = self.check_ptr(st, ctx, p, size, "read", loc)
        if o.kind == "extern":
            if "__libc_single_threaded" in str(o.name): return 1
            raise Unsupported("read of external global " + o.name)
        off = p.off
        if o.arrs is None and isinstance(off, int):
            return self.load_cell(st, o, p.o, off, size, ty)
        if o.arrs is None:
            off = self.split_off(st, o, off, size)
            if isinstance(off, int): return self.load_cell(st, o, p.o, off, size, ty)
            o = self.to_array(st, p.o, off, size)
        elif not isinstance(off, int):
            self.to_array(st, p.o, off, size)
        idx, f = self.arr_index(o, off, size)
        a = o.arrs.get(f)
        if a is None:
            a = Arr(size, ("zero",) if o.zero else ("unk", {}))
            st.wobj(p.o).arrs[f] = a
        if a.size != size:
            raise Unsupported("array access size %d/%d of %s at %s" % (size, a.size, o.name, loc))
        self.arrkind[(p.o, f)] = ty
        return self.arr_load(st, ctx, a, idx, ty)

    def load_cell(self, st, o, oid, off, size, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], ty)
        # pieces
        parts = []; q = off; ok = True
        while q < off + size:
            c = o.cells.get(q)
            if c is None or q + c[0] > off + size: ok = False; break
            parts.append(c); q += c[0]
        if ok and parts:
            if ty in ("f64", "f32", "ptr"): raise Unsupported("composite load as " + ty)
            return Parts(list(parts))
        # inside a larger cell
        for co, (sz, v) in o.cells.items():
            if co <= off and off + size <= co + sz and sz > size:
                return self.extract(v, sz, off - co, size, ty, st)
        over = [co for co, (sz, v) in o.cells.items() if co < off + size and off < co + sz]
        if not over:
            if o.zero: return zero_of(ty)
            v = self.fresh(ty, "uninit_" + re.sub(r"\W+", "_", str(o.name))[:20])
            w = st.wobj(oid); w.cells[off] = (size, v)
            return v
        if o.zero or True:
            # partially initialised composite (padding): fill the gaps
            w = st.wobj(oid)
            q = off; parts = []
            while q < off + size:
                c = w.cells.get(q)
                if c is None:
                    nx = min([co for co in w.cells if co > q] + [off + size])
                    n = min(nx, off + size) - q
                    w.cells[q] = (n, 0 if o.zero else UNDEF); c = w.cells[q]
                if q + c[0] > off + size: raise Unsupported("overlapping load of " + str(o.name))
                parts.append(c); q += c[0]
            if ty in ("f64", "f32", "ptr"): raise Unsupported("composite load as " + ty)
            return Parts(parts)

    def extract(self, v, sz, o, size, ty, st):
        if isinstance(v, Parts):
            q = 0
            acc = []
            for (n, x) in v.p:
                if q == o and n == size: return self.conv(x, ty)
                if q >= o and q + n <= o + size: acc.append((n, x))
                q += n
            if acc and sum(n for n, _ in acc) == size: return Parts(acc)
            raise Unsupported("extract from parts")
        if isinstance(v, Undef): return UNDEF
        if isinstance(v, (Ptr, Fraction)) or (isinstance(v, Poly) and v.real): raise Unsupported("piece of pointer/float")
        u = self.unsigned(st, v, sz * 8)
        q = divpoly(u, 1 << (8 * o), "f")
        return self.conv(self.wrap(st, q, size * 8), ty)

    def conv(self, v, ty):
        """reinterpret a stored value as type ty"""
        if isinstance(v, (Undef, Parts, list)): return v
        if ty == "ptr":
            if isinstance(v, Ptr): return v
            if isinstance(v, int) and v == 0: return NULL
            if isinstance(v, int): return Ptr(0, v)
            raise Unsupported("integer loaded as pointer")
        if ty in ("f32", "f64", "f80"):
            if T.isreal(v): return v
            if isinstance(v, int) and v == 0: return Fraction(0)
            if isinstance(v, int):
                if ty == "f64": return Fraction(struct.unpack("<d", struct.pack("<Q", v & (2**64 - 1)))[0])
                return Fraction(struct.unpack("<f", struct.pack("<I", v & (2**32 - 1)))[0])
            raise Unsupported("integer loaded as float")
        if ty == "i1":
            if isinstance(v, bool) or z3.is_expr(v): return v
            return self.num2bool(v)
        if isinstance(v, Ptr):
            if v.o == 0: return v.off
            return v       # pointer bits in an integer
        if isinstance(v, bool) or z3.is_expr(v): return T.b2i(v)
        if isinstance(v, Fraction):
            if v == 0: return 0
            n = int(ty[1:])
            d = float(v)
            return struct.unpack("<q", struct.pack("<d", d))[0] if n == 64 else struct.unpack("<i", struct.pack("<f", d))[0]
        if isinstance(v, Poly) and v.real: raise Unsupported("float loaded as integer")
        return v

    def num2bool(self, v):
        b = T.as_bool(v)
        if b is not None: return b
        return cmp("eq", modpoly(v, 2, "f"), 1) if not isinstance(v, int) else bool(v & 1)

    def fresh(self, ty, name):
        if ty == "i1": return T.fresh_bool(name)
        if ty[0] == "i":
            n = int(ty[1:]); return T.fresh_int(name, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        if ty in ("f32", "f64", "f80"): return T.fresh_real(name)
        if ty == "ptr": return UNDEF
        raise Unsupported("fresh " + ty)

    def arr_load(self, st, ctx, a, idx, ty):
        layers = a.layers
        # walk from the newest layer; conditions collected for an ite chain
        chain = []
        i = len(layers) - 1
        base = None
        while i >= 0:
            l = layers[i]
            if l[0] == "pt":
                c = cmp("eq", idx, l[1])
                if not isinstance(c, bool):
                    if not solver.feasible(st.pc, c, 400): c = False
                    elif not solver.feasible(st.pc, b_not(c), 400): c = True
                if c is True: base = self.conv(l[2], ty); break
                if c is not False: chain.append((c, self.conv(l[2], ty)))
            elif l[0] == "fill":      # lo, hi, value
                c = b_and(cmp("le", l[1], idx), cmp("lt", idx, l[2]))
                if not isinstance(c, bool):
                    if not solver.feasible(st.pc, c, 400): c = False
                    elif not solver.feasible(st.pc, b_not(c), 400): c = True
                if c is True: base = self.conv(l[3], ty); break
                if c is not False: chain.append((c, self.conv(l[3], ty)))
            elif l[0] == "fn":        # lo, hi, callable(st, idx, ty)
                c = b_and(cmp("le", l[1], idx), cmp("lt", idx, l[2]))
                if not isinstance(c, bool):
                    if not solver.feasible(st.pc, c, 400): c = False
                    elif not solver.feasible(st.pc, b_not(c), 400): c = True
                if c is True: base = self.conv(l[3](self, st, ctx, idx, ty), ty); break
                if c is not False: chain.append((c, self.conv(l[3](self, st, ctx, idx, ty), ty)))
            i -= 1
        if base is None:
            b = a.base
            if b[0] == "zero": base = zero_of(ty)
            else:
                d = b[1]
                nm = d.get("name")
                if nm is None: nm = d["name"] = T.fresh_name("arr")
                if ty == "ptr":
                    k = idx if isinstance(idx, int) else idx.key()
                    if ("p", k) not in d: raise Unsupported("pointer read from an unknown array cell")
                    base = d[("p", k)]
                elif ty == "i1":
                    base = z3.Function(nm + "b", z3.IntSort(), z3.BoolSort())(toz(idx))
                else:
                    real = ty in ("f32", "f64", "f80")
                    f = z3.Function(nm, z3.IntSort(), z3.RealSort() if real else z3.IntSort())
                    base = fromz(f(toz(idx)), nm)
                    if isinstance(idx, T.Poly) and any(len(m) == 2 for m in idx.t): self.product_facts(d, idx, T.ATOMS[list(base.t)[0][0]])
                    if not real:
                        at = T.ATOMS[list(base.t)[0][0]]
                        if at.lo is None:
                            n = int(ty[1:]); at.lo, at.hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
                            at.facts += [at.z >= at.lo, at.z <= at.hi]
        v = base
        for c, x in reversed(chain): v = self.ite(st, c, x, v)
        return v

    def product_facts(self, d, idx, at):
        """reads of one array at x*c+.. and y*c+..: equal factors make equal products"""
        if self.opts.get("nopf"): return
        seen = d.setdefault("reads", {}); k = idx.key()
        if k in seen: return
        ms = [m for m in idx.t if len(m) == 2]
        for om in {m for v in seen.values() for m in v}:
            for m in ms:
                if m == om: continue
                for i, j in ((0, 1), (1, 0)):
                    for p, q in ((0, 1), (1, 0)):
                        if m[i] == om[p] and m[j] != om[q]:
                            at.facts.append(z3.Implies(T.ATOMS[m[j]].z == T.ATOMS[om[q]].z, T.mono_z(m) == T.mono_z(om)))
        seen[k] = ms
    def ite(self, st, c, a, b):
        if isinstance(c, bool): return a if c else b
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)): return T.b_ite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o: return Ptr(a.o, T.ite_off(c, a.off, b.off))
            return None_ptr(c, a, b)
        if isinstance(a, list) and isinstance(b, list): return [self.ite(st, c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Parts) or isinstance(b, Parts):
            if isinstance(a, Parts) and isinstance(b, Parts) and [n for n, _ in a.p] == [n for n, _ in b.p]:
                return Parts([(n, self.ite(st, c, x, y)) for (n, x), (_, y) in zip(a.p, b.p)])
            raise Unsupported("ite of parts")
        if isinstance(a, (bool, z3.BoolRef)): a = T.b2i(a)
        if isinstance(b, (bool, z3.BoolRef)): b = T.b2i(b)
        return T.ite(c, a, b)

    def store(self, st, ctx, p, v, ty, loc=""):
        size = tysize(ty)
        o = self.check_ptr(st, ctx, p, size, "write", loc)
        if o.const: raise Unsupported("store to constant " + str(o.name))
        off = p.off
        if ty == "i1" and not isinstance(v, (Undef,)): pass
        o = st.wobj(p.o)
        if o.arrs is None and isinstance(off, int):
            self.store_cell(st, o, off, size, v)
            return
        if o.arrs is None:
            off = self.split_off(st, o, off, size)
            if isinstance(off, int):
                self.store_cell(st, o, off, size, v)
                return
            self.to_array(st, p.o, off, size); o = st.mem[p.o]
        elif not isinstance(off, int): self.to_array(st, p.o, off, size)
        idx, f = self.arr_index(o, off, size)
        if not (ty[0] == "i" and T.isreal(v)): self.arrkind[(p.o, f)] = ty
        a = o.arrs.get(f)
        if a is None: a = Arr(size, ("zero",) if o.zero else ("unk", {}))
        if a.size != size: 
            if isinstance(v, Parts):
                q = 0
                for n, x in v.p:
                    self.store(st, ctx, Ptr(p.o, add(off, q)), x, "i%d" % (n * 8), loc); q += n
                return
            raise Unsupported("array store size of " + str(o.name))
        if isinstance(idx, int):   # drop a shadowed point layer
            ls = a.layers
            if ls and ls[-1][0] == "pt" and isinstance(ls[-1][1], int) and ls[-1][1] == idx: a = Arr(a.size, a.base, ls[:-1], a.kind)
        elif a.layers and a.layers[-1][0] == "pt" and a.layers[-1][1] == idx:
            a = Arr(a.size, a.base, a.layers[:-1], a.kind)
        o.arrs[f] = a.with_(("pt", idx, v))

    def store_cell(self, st, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if not (c is not None and c[0] == size):
            for co in [co for co in cells if co < off + size and off < co + cells[co][0]]:
                sz, old = cells[co]
                del cells[co]
                if co < off or co + sz > off + size:
                    # keep the uncovered pieces
                    if co < off: cells[co] = (off - co, self.extract(old, sz, 0, off - co, "i%d" % ((off - co) * 8), st))
                    e = off + size
                    if co + sz > e: cells[e] = (co + sz - e, self.extract(old, sz, e - co, co + sz - e, "i%d" % ((co + sz - e) * 8), st))
        if isinstance(v, Parts):
            q = off
            cells.pop(off, None)
            for n, x in v.p:
                cells[q] = (n, x); q += n
        else: cells[off] = (size, v)

    def memcpy(self, st, ctx, d, s, n, loc=""):
        if isinstance(n, int) and n == 0: return
        so = self.check_ptr(st, ctx, s, n if isinstance(n, int) else 0, "read", loc)
        do = self.check_ptr(st, ctx, d, n if isinstance(n, int) else 0, "write", loc)
        if not isinstance(n, int):
            if ctx.record and self.opts["bounds"]:
                for p, o in ((s, so), (d, do)):
                    if o.size is not None:
                        self.oblige(st, ctx, "block copy within %s" % o.name, b_and(cmp("ge", p.off, 0), cmp("le", add(p.off, n), o.size)), "bounds", loc)
        if isinstance(n, int) and so.arrs is None and do.arrs is None and isinstance(s.off, int) and isinstance(d.off, int):
            cells = []
            for co, (sz, v) in list(so.cells.items()):
                if co < s.off + n and s.off < co + sz:
                    lo, hi = max(co, s.off), min(co + sz, s.off + n)
                    x = v if (lo == co and hi == co + sz) else self.extract(v, sz, lo - co, hi - lo, "i%d" % ((hi - lo) * 8), st)
                    cells.append((lo - s.off, hi - lo, x))
            w = st.wobj(d.o)
            for co in [co for co in w.cells if co < d.off + n and d.off < co + w.cells[co][0]]:
                sz, old = w.cells[co]
                if co < d.off or co + sz > d.off + n:
                    self.store_cell(st, w, max(co, d.off), min(co + sz, d.off + n) - max(co, d.off), UNDEF); 
                    w.cells.pop(max(co, d.off), None)
                else: del w.cells[co]
            for r, sz, v in cells: w.cells[d.off + r] = (sz, v)
            if so.zero:
                # make implicit zeros explicit
                q = 0; covered = sorted((r, sz) for r, sz, _ in cells)
                pos = 0
                for r, sz in covered + [(n, 0)]:
                    if r > pos and not w.zero: w.cells[d.off + pos] = (r - pos, Parts([(1, 0)] * (r - pos)) if (r - pos) not in (1, 2, 4, 8) else 0)
                    pos = max(pos, r + sz)
            return
        # array copies
        stride = None
        if so.arrs is not None: stride = so.stride
        elif do.arrs is not None: stride = do.stride
        else:
            from math import gcd
            g = 0
            for x in (n, s.off, d.off):
                if isinstance(x, Poly):
                    for m, c in x.t.items():
                        if m != (): g = gcd(g, abs(c))
            stride = g
            if so.cells:
                mx = max(sz for sz, _ in so.cells.values())
        if not stride: raise Unsupported("block copy " + loc)
        self.force_array(st, s.o, stride); self.force_array(st, d.o, stride)
        so = st.mem[s.o]; w = st.wobj(d.o)
        if so.stride != w.stride: raise Unsupported("block copy between arrays of different stride")
        stride = so.stride
        cnt = divpoly(n, stride, "f")
        si, sf = self.arr_index(so, s.off, 0); di, df = self.arr_index(w, d.off, 0)
        if sf or df: raise Unsupported("unaligned block copy")
        shift = sub(si, di)
        for f, a in so.arrs.items():
            snap = a
            def fn(ex, st2, ctx2, idx, ty, snap=snap, shift=shift): return ex.arr_load(st2, ctx2, snap, add(idx, shift), ty)
            b = w.arrs.get(f) or Arr(a.size, ("zero",) if w.zero else ("unk", {}))
            w.arrs[f] = b.with_(("fn", di, add(di, cnt), fn))
        for f in w.arrs:
            if f not in so.arrs:
                z = so.zero
                if z: w.arrs[f] = w.arrs[f].with_(("fill", di, add(di, cnt), 0))
                else:
                    a0 = Arr(w.arrs[f].size, ("unk", {}))
                    def fn(ex, st2, ctx2, idx, ty, snap=a0, shift=shift): return ex.arr_load(st2, ctx2, snap, add(idx, shift), ty)
                    w.arrs[f] = w.arrs[f].with_(("fn", di, add(di, cnt), fn))
        if so.zero and not so.arrs and not w.zero:
            raise Unsupported("block copy of zeros")

    def force_array(self, st, oid, stride):
        o = st.mem[oid]
        if o.arrs is None:
            o = st.wobj(oid); o.stride = stride; o.arrs = {}
            cells = o.cells; o.cells = {}
            for co, (sz, v) in sorted(cells.items()):
                f = co % stride
                if f + sz > stride: raise Unsupported("array stride of " + str(o.name))
                a = o.arrs.get(f) or Arr(sz, ("zero",) if o.zero else ("unk", {}))
                o.arrs[f] = a.with_(("pt", co // stride, v))

    def memset(self, st, ctx, d, v, n, loc=""):
        if isinstance(n, int) and n == 0: return
        do = self.check_ptr(st, ctx, d, n if isinstance(n, int) else 0, "write", loc)
        if not isinstance(v, int): raise Unsupported("memset with symbolic value")
        w = st.wobj(d.o)
        if isinstance(d.off, int) and d.off == 0 and v == 0 and (n == w.size or (isinstance(n, Poly) and isinstance(w.size, Poly) and n == w.size)):
            w.cells = {}; w.arrs = None; w.stride = None; w.zero = True
            return
        if isinstance(n, int) and isinstance(d.off, int) and w.arrs is None:
            q = d.off
            e = d.off + n
            for co in [co for co in w.cells if co < e and d.off < co + w.cells[co][0]]:
                sz, old = w.cells[co]
                if co < d.off or co + sz > e: raise Unsupported("partial memset")
                del w.cells[co]
            if v == 0 and w.zero: return
            while q < e:
                s = 8 if q % 8 == 0 and e - q >= 8 else 4 if q % 4 == 0 and e - q >= 4 else 1
                x = int.from_bytes(bytes([v & 255]) * s, "little", signed=True)
                w.cells[q] = (s, x); q += s
            return
        if ctx.record and self.opts["bounds"] and w.size is not None:
            self.oblige(st, ctx, "block fill within %s" % w.name, b_and(cmp("ge", d.off, 0), cmp("le", add(d.off, n), w.size)), "bounds", loc)
        if w.arrs is None:
            raise Unsupported("partial symbolic memset of " + str(w.name))
        if v != 0: raise Unsupported("memset of array with nonzero")
        di, df = self.arr_index(w, d.off, 0); cnt = divpoly(n, w.stride, "f")
        for f in w.arrs: w.arrs[f] = w.arrs[f].with_(("fill", di, add(di, cnt), 0))

    # ---------------------------------------------------------------- integers
    def wrap(self, st, v, bits):
        """signed representative of v modulo 2^bits"""
        if isinstance(v, int):
            v &= (1 << bits) - 1
            return v - (1 << bits) if v >> (bits - 1) else v
        lo, hi = T.bounds(v)
        m = 1 << bits; h = m >> 1
        if lo is not None and hi is not None and lo >= -h and hi < h: return v
        t = {k: c for k, c in v.t.items()}
        for k in list(t):
            c = t[k] % m
            if c >= h: c -= m
            t[k] = c
        w = T.mk(t, False)
        if isinstance(w, int): return self.wrap(st, w, bits)
        # undo uext(x) -> x
        w2 = w
        for k, c in list(w.t.items()):
            if len(k) == 1:
                u = self.uext_of.get(k[0]) if hasattr(self, "uext_of") else None
                if u is not None and u[1] <= bits and (c * (1 << u[1])) % m == 0:
                    w2 = add(sub(w2, Poly({k: c})), scale(u[0], c))
        w = w2
        if isinstance(w, int): return self.wrap(st, w, bits)
        lo, hi = T.bounds(w)
        if lo is not None and hi is not None and lo >= -h and hi < h: return w
        inr = b_and(cmp("ge", w, -h), cmp("lt", w, h))
        if isinstance(inr, bool) and inr: return w
        r, _, _ = solver.prove(st.pc, inr, 600) if not isinstance(inr, bool) else ("failed", 0, 0)
        if r == "proved": return w
        q = divpoly(add(w, h), m, "f")
        return sub(w, scale(q, m))

    uext_of = {}
    def unsigned(self, st, v, bits):
        """unsigned value (mathematical) of the signed representative v"""
        if isinstance(v, int): return v if v >= 0 else v + (1 << bits)
        if isinstance(v, Parts): v = self.flat(st, v)
        lo, hi = T.bounds(v)
        if lo is not None and lo >= 0: return v
        k = (v.key(), bits)
        u = self._uextc.get(k)
        if u is not None: return u
        c = cmp("ge", v, 0)
        if isinstance(c, bool): return v if c else add(v, 1 << bits)
        if not solver.feasible(st.pc, b_not(c), 400): return v
        z = toz(v)
        u = T.fresh_int("uext", 0, (1 << bits) - 1)
        at = T.ATOMS[list(u.t)[0][0]]
        at.facts.append(at.z == z3.If(z < 0, z + (1 << bits), z))
        self._uextc[k] = u
        Exec.uext_of[at.id] = (v, bits)
        return u
    _uextc = {}

    def flat(self, st, v):
        """Parts -> number"""
        if not isinstance(v, Parts): return v
        r = 0; sh = 0
        n = len(v.p)
        for i, (b, x) in enumerate(v.p):
            if isinstance(x, Undef): x = 0
            if isinstance(x, Ptr) or T.isreal(x): raise Unsupported("flatten parts")
            if isinstance(x, (bool, z3.BoolRef)): x = T.b2i(x)
            x = self.flat(st, x)
            if i < n - 1: x = self.unsigned(st, x, b * 8)
            r = add(r, scale(x, 1 << sh)); sh += b * 8
        return r

    def bits_of(self, st, v, bits):
        """list of Booleans, low bit first"""
        if isinstance(v, int): return [bool((v >> i) & 1) for i in range(bits)]
        # b2i combinations: sum of 2^k * b2i with distinct powers
        r = [False] * bits; ok = True
        for m, c in v.t.items():
            if m == ():
                x = c
                if x < 0: ok = False; break
                for i in range(bits):
                    if (x >> i) & 1:
                        if r[i] is not False: ok = False
                        r[i] = True
                continue
            if len(m) == 1 and (c > 0 and (c & (c - 1)) == 0 or c == -(1 << (bits - 1))) and T.ATOMS[m[0]].b2i is not None:
                i = abs(c).bit_length() - 1
                if i >= bits or r[i] is not False: ok = False; break
                r[i] = T.ATOMS[m[0]].b2i
            else: ok = False; break
        if ok: return r
        # ite over values: push inside
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1:
                z = T.ATOMS[m[0]].z
                if z3.is_app_of(z, z3.Z3_OP_ITE):
                    k = ("bits", v.key(), bits)
                    if k in T._unc: return T._unc[k]
                    a = self.bits_of(st, fromz(z.arg(1)) if not z3.is_app_of(z.arg(1), z3.Z3_OP_ADD) else fromz(z.arg(1)), bits)
                    b = self.bits_of(st, fromz(z.arg(2)), bits)
                    r = [T.b_ite(z.arg(0), x, y) for x, y in zip(a, b)]
                    T._unc[k] = r
                    return r
        k = ("bits", v.key(), bits)
        r = T._unc.get(k)
        if r is None:
            lo, hi = T.bounds(v)
            n = bits
            if lo is not None and lo >= 0 and hi is not None: n = min(bits, max(1, hi.bit_length()))
            vz = toz(v)
            bs = [z3.Function("bit%d" % i, z3.IntSort(), z3.BoolSort())(vz) for i in range(n)]
            s = z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bs[:-1])] + ([z3.If(bs[-1], z3.IntVal((1 << (n - 1)) if n < bits else -(1 << (n - 1))), z3.IntVal(0))]))
            fact = toz(v) == s
            for b in bs[:1]:
                q = toz(divpoly(v, 2, "f"))
                T.add_lemma(b, [vz == 2 * q + z3.If(b, z3.IntVal(1), z3.IntVal(0))] if n < bits or n > 1 else [fact])
            for b in bs[1:]: T.add_lemma(b, [fact])
            for b in bs: T._keep.append(b)
            r = bs + [False] * (bits - n)
            T._unc[k] = r
            # equality with v from the number side as well
            for m in v.t:
                for i in m: T.ATOMS[i].facts.append(fact)
        return r

    def from_bits(self, st, bs):
        n = len(bs)
        r = 0
        for i, b in enumerate(bs):
            if b is False: continue
            w = (1 << i) if i < n - 1 else -(1 << i)
            r = add(r, scale(T.b2i(b), w))
        return r

    def binop(self, st, ctx, ins, op, bits, a, b):
        if bits == 1:
            a = self.conv(a, "i1"); b = self.conv(b, "i1")
            if isinstance(a, Undef) or isinstance(b, Undef): return T.fresh_bool("undef")
            if op == "and" or op == "mul": return T.b_and(a, b)
            if op == "or": return T.b_or(a, b)
            if op in ("xor", "add", "sub"): return T.b_xor(a, b)
            raise Unsupported("i1 " + op)
        ty = "i%d" % bits
        if isinstance(a, Undef): a = self.fresh(ty, "undef")
        if isinstance(b, Undef): b = self.fresh(ty, "undef")
        if isinstance(a, (bool, z3.BoolRef)): a = T.b2i(a)
        if isinstance(b, (bool, z3.BoolRef)): b = T.b2i(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o: return sub(a.off, b.off)
                self.oblige(st, ctx, "difference of pointers into different objects", False, "bounds", self.loc(ins)); raise Infeasible()
            if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.o, add(a.off, b, 1 if op == "add" else -1))
            if op == "add" and isinstance(b, Ptr): return Ptr(b.o, add(b.off, a))
            if op == "and" and isinstance(b, int) and isinstance(a, Ptr): # alignment test
                if b in (1,) : return 0 if not isinstance(a.off, int) else a.off & b
                return (a.off & b) if isinstance(a.off, int) and b < 16 and b > 0 else self.unsup("pointer bits")
            a, b = (self.address(st, x) if isinstance(x, Ptr) else x for x in (a, b))
        if isinstance(a, Parts):
            if op == "lshr" and isinstance(b, int) and b % 8 == 0:
                q = 0; rest = []
                for n, x in a.p:
                    if q >= b // 8: rest.append((n, x))
                    elif q + n > b // 8: rest = None; break
                    q += n
                if rest: return Parts(rest + [(b // 8, 0)])
            a = self.flat(st, a)
        if isinstance(b, Parts): b = self.flat(st, b)
        nsw = ins.get("nsw"); nuw = ins.get("nuw")
        if op in ("add", "sub", "mul"):
            if op == "mul":
                for x, y in ((a, b), (b, a)):     # a number times a truth value
                    if isinstance(x, Poly) and isinstance(y, Poly) and len(x.t) == 1:
                        (mm, cc), = x.t.items()
                        if cc == 1 and len(mm) == 1 and T.ATOMS[mm[0]].b2i is not None: return T.ite(T.ATOMS[mm[0]].b2i, y, 0)
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
            if isinstance(r, int): return self.wrap(st, r, bits) 
            if nsw:
                if self.opts["nsw"] and ctx.record:
                    h = 1 << (bits - 1)
                    self.oblige(st, ctx, "no signed overflow", b_and(cmp("ge", r, -h), cmp("lt", r, h)), "overflow", self.loc(ins))
                return r
            return self.wrap(st, r, bits)
        if op in ("sdiv", "srem"):
            if isinstance(b, int) and b == 0:
                self.oblige(st, ctx, "division by zero", False, "bounds", self.loc(ins)); raise Infeasible()
            if not isinstance(b, int):
                g = cmp("ne", b, 0)
                self.oblige(st, ctx, "divisor is not zero", g, "bounds", self.loc(ins)); st.assume(g)
            if op == "sdiv":
                if ins.get("exact") and isinstance(b, int): return divpoly(a, b, "t")
                return divpoly(a, b, "t")
            return modpoly(a, b, "t")
        if op in ("udiv", "urem"):
            a = self.unsigned(st, a, bits); b = self.unsigned(st, b, bits)
            if isinstance(b, int) and b == 0:
                self.oblige(st, ctx, "division by zero", False, "bounds", self.loc(ins)); raise Infeasible()
            if not isinstance(b, int):
                g = cmp("ne", b, 0)
                self.oblige(st, ctx, "divisor is not zero", g, "bounds", self.loc(ins)); st.assume(g)
            return self.wrap(st, divpoly(a, b, "t") if op == "udiv" else modpoly(a, b, "t"), bits)
        if op == "shl":
            if isinstance(b, int):
                r = scale(a, 1 << b)
                return r if nsw and not isinstance(r, int) else self.wrap(st, r, bits)
            if isinstance(a, int):
                r = 0
                p = self.pow2(st, b, bits)
                return self.wrap(st, scale(p, a), bits)
            raise Unsupported("shift by symbolic amount")
        if op == "ashr":
            if isinstance(b, int): return divpoly(a, 1 << b, "f")
            raise Unsupported("shift by symbolic amount")
        if op == "lshr":
            if isinstance(b, int): return self.wrap(st, divpoly(self.unsigned(st, a, bits), 1 << b, "f"), bits)
            raise Unsupported("shift by symbolic amount")
        if op in ("and", "or", "xor"):
            if isinstance(a, int) and isinstance(b, int):
                return self.wrap(st, (a & b) if op == "and" else (a | b) if op == "or" else (a ^ b), bits)
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == "xor" and b == -1: return sub(-1, a)
                if op == "and" and b == 0: return 0
                if op == "and" and b == -1: return a
                if op in ("or", "xor") and b == 0: return a
                if op == "and" and b > 0 and (b & (b + 1)) == 0:
                    lo, hi = T.bounds(a)
                    if lo is not None and hi is not None and lo >= 0 and hi <= b: return a
                    # a mod 2^k
                    n = b.bit_length()
                    bb = T.as_bool(a)
                    if bb is None and all(self.simple_bits(a)): pass
                    else:
                        r = self.and_mask(st, a, n)
                        return T.b2i(cmp("eq", r, 1)) if n == 1 and isinstance(r, Poly) else r
            if op == "or" and not isinstance(b, int):
                # disjoint halves
                for x, y in ((a, b), (b, a)):
                    for k in (32, 16, 8):
                        if k >= bits: continue
                        if isinstance(x, Poly) and all(c % (1 << k) == 0 for c in x.t.values()):
                            lo, hi = T.bounds(y)
                            if lo is not None and hi is not None and lo >= 0 and hi < (1 << k):
                                return Parts([(k // 8, self.wrap(st, y, k)), ((bits - k) // 8, divpoly(x, 1 << k, "f"))])
            A, B = self.bits_of(st, a, bits), self.bits_of(st, b, bits)
            f = T.b_and if op == "and" else T.b_or if op == "or" else T.b_xor
            return self.from_bits(st, [f(x, y) for x, y in zip(A, B)])
        raise Unsupported("integer operation " + op)

    def simple_bits(self, a):
        return [len(m) <= 1 and (m == () or T.ATOMS[m[0]].b2i is not None) for m in a.t]

    def and_mask(self, st, a, n):
        m = 1 << n
        t = {k: c for k, c in a.t.items() if c % m}
        w = T.mk(t, False)
        if isinstance(w, int): return w % m
        lo, hi = T.bounds(w)
        if lo is not None and hi is not None and lo >= 0 and hi < m: return w
        return modpoly(w, m, "f")

    def pow2(self, st, b, bits):
        lo, hi = T.bounds(b)
        if lo is None or hi is None or lo < 0 or hi > 64: raise Unsupported("shift by symbolic amount")
        r = 1 << hi
        for k in range(hi - 1, lo - 1, -1): r = T.ite(cmp("eq", b, k), 1 << k, r)
        return r

    def address(self, st, p):
        """the pointer as a number: an unknown base address per object"""
        if p.o == 0: return p.off
        if not hasattr(self, "addrs"): self.addrs = {}
        if p.o not in self.addrs: self.addrs[p.o] = T.fresh_int("address", 4096, 1 << 46)
        return add(self.addrs[p.o], p.off)
    def unsup(self, m): raise Unsupported(m)

    arrkind = {}
    def fresh_for(self, x, size):
        if T.isreal(x): return T.fresh_real("u")
        if isinstance(x, (bool, z3.BoolRef)): return T.fresh_bool("u")
        if isinstance(x, (int, Poly)): return T.fresh_int("u", -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
        if isinstance(x, Parts): return Parts([(n, self.fresh_for(y, n)) for n, y in x.p])
        return UNDEF

    def icmp(self, st, ctx, pred, cty, a, b):
        if self.cmp_log is not None:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: self.cmp_log.append((pred, a.off, b.off))
            elif isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool): self.cmp_log.append((pred, a, b))
        if isinstance(a, Undef) or isinstance(b, Undef): return T.fresh_bool("undef")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a = self.conv(a, "ptr"); b = self.conv(b, "ptr")
            if a.o == b.o:
                p = {"eq": "eq", "ne": "ne", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge"}[pred]
                return cmp(p, a.off, b.off)
            if pred == "eq": return False
            if pred == "ne": return True
            if a.o == 0 or b.o == 0:
                return {"ult": a.o == 0, "ule": a.o == 0, "ugt": b.o == 0, "uge": b.o == 0}[pred]
            raise Unsupported("ordering of unrelated pointers")
        if cty == "i1":
            a, b = self.conv(a, "i1"), self.conv(b, "i1")
            if pred == "eq": return T.b_eq(a, b)
            if pred == "ne": return T.b_xor(a, b)
            a, b = T.b2i(a), T.b2i(b)
            return cmp({"ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}[pred], a, b)
        if isinstance(a, (bool, z3.BoolRef)): a = T.b2i(a)
        if isinstance(b, (bool, z3.BoolRef)): b = T.b2i(b)
        if isinstance(a, Parts) and isinstance(b, Parts) and pred in ("eq", "ne") and [n for n, _ in a.p] == [n for n, _ in b.p]:
            r = T.b_and(*[self.icmp(st, ctx, "eq", "i%d" % (8 * n), x, y) for (n, x), (_, y) in zip(a.p, b.p)])
            return r if pred == "eq" else b_not(r)
        a = self.flat(st, a); b = self.flat(st, b)
        if pred in ("eq", "ne"):
            if isinstance(a, int) and not isinstance(b, int): a, b = b, a
            if isinstance(b, int) and not isinstance(a, int):
                bb = self.bit_eq(st, a, b)
                if bb is not None: return bb if pred == "eq" else b_not(bb)
            return cmp(pred, a, b)
        if pred[0] == "s": return cmp(pred[1:], a, b)
        bits = int(cty[1:])
        return cmp(pred[1:], self.unsigned(st, a, bits), self.unsigned(st, b, bits))

    def bit_eq(self, st, a, c):
        """a == c when a is a sum of distinct powers of two times Booleans"""
        for m, k in a.t.items():
            if m == (): return None
            if not (len(m) == 1 and k > 0 and (k & (k - 1)) == 0 and T.ATOMS[m[0]].b2i is not None): return None
        seen = {}
        for m, k in a.t.items():
            if k in seen: return None
            seen[k] = T.ATOMS[m[0]].b2i
        if c < 0: return False
        r = []
        for k, b in seen.items():
            r.append(b if (c & k) else b_not(b)); c &= ~k
        if c: return False
        return T.b_and(*r)

    def loc(self, ins):
        return "%s:%s" % (ins.get("fl", "?").replace("/repo/", ""), ins.get("ln", "?"))

    # ---------------------------------------------------------------- instructions
    def val(self, st, env, o):
        k = o[0]
        if k == "r": return env[o[1]]
        return self.const(st, o)

    def do_simple(self, st, ctx, env, ins, fn):
        """execute one non-control instruction"""
        op = ins["op"]
        V = lambda o: env[o[1]] if o[0] == "r" else self.const(st, o)
        if op == "load":
            p = V(ins["a"][0]); ty = ins["ty"]
            if "lv" in ins: env[ins["id"]] = self.load_aggr(st, ctx, p, ty, ins["lv"], self.loc(ins))
            else: env[ins["id"]] = self.load(st, ctx, p, ty, self.loc(ins))
        elif op == "store":
            v = V(ins["a"][0]); p = V(ins["a"][1])
            if "lv" in ins:
                fl = flatten(v)
                for (off, t), x in zip(ins["lv"], fl): self.store(st, ctx, Ptr(p.o, add(p.off, off)), x, t, self.loc(ins))
            else: self.store(st, ctx, p, v, ins["vty"], self.loc(ins))
        elif op == "getelementptr":
            b = V(ins["base"])
            if isinstance(b, Undef): env[ins["id"]] = UNDEF; return
            off = add(b.off, ins["off"])
            for s, o, t in ins["terms"]:
                x = V(o)
                if isinstance(x, Parts): x = self.flat(st, x)
                if isinstance(x, Undef): x = self.fresh(t, "undef")
                if isinstance(x, (bool, z3.BoolRef)): x = neg(T.b2i(x))
                if isinstance(x, Ptr): raise Unsupported("pointer used as index at %s in %s" % (self.loc(ins), fn.dem[:100]))
                off = add(off, scale(x, s))
            env[ins["id"]] = Ptr(b.o, off)
        elif op == "alloca":
            n = V(ins["n"])
            env[ins["id"]] = self.alloc(st, scale(n, ins["size"]) if n != 1 else ins["size"], "local %s:%s" % (fn.dem[:40], ins.get("ln", "")), kind="stack")
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            env[ins["id"]] = self.binop(st, ctx, ins, op, int(ins["ty"][1:]), V(ins["a"][0]), V(ins["a"][1]))
        elif op == "icmp":
            env[ins["id"]] = self.icmp(st, ctx, ins["pred"], ins["cty"], V(ins["a"][0]), V(ins["a"][1]))
        elif op == "fcmp":
            a, b = V(ins["a"][0]), V(ins["a"][1]); p = ins["pred"]
            if isinstance(a, Undef) or isinstance(b, Undef): env[ins["id"]] = T.fresh_bool("undef"); return
            if p in ("uno", "false"): r = False
            elif p in ("ord", "true"): r = True
            else: r = cmp({"eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge"}[p[1:]], toreal(a), toreal(b))
            env[ins["id"]] = r
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            if ins["ty"][0] in "<[":
                xs = [V(o) for o in ins["a"]]
                env[ins["id"]] = [self.fop(st, ctx, ins, op, [x[i] for x in xs]) for i in range(len(xs[0]))]
            else: env[ins["id"]] = self.fop(st, ctx, ins, op, [V(o) for o in ins["a"]])
        elif op == "select":
            c, a, b = (V(o) for o in ins["a"])
            if isinstance(c, Undef): c = T.fresh_bool("undef")
            c = self.known(st, c)
            env[ins["id"]] = self.ite(st, c, a, b)
            if isinstance(env[ins["id"]], NeedFork): raise env[ins["id"]]
        elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            env[ins["id"]] = self.cast(st, ctx, ins, op, V(ins["a"][0]), ins["aty"], ins["ty"])
        elif op == "extractvalue":
            v = V(ins["a"][0])
            for k in ins["ix"]:
                if isinstance(v, Undef): break
                v = v[k]
            env[ins["id"]] = v
        elif op == "insertvalue":
            a, x = V(ins["a"][0]), V(ins["a"][1])
            if isinstance(a, Undef): a = self.aggr(ins["ty"], UNDEF)
            env[ins["id"]] = insert(a, ins["ix"], x)
        elif op == "extractelement":
            a, i = V(ins["a"][0]), V(ins["a"][1]); env[ins["id"]] = a[i] if not isinstance(a, Undef) else UNDEF
        elif op == "insertelement":
            a, x, i = (V(o) for o in ins["a"])
            if isinstance(a, Undef): a = self.aggr(ins["ty"], UNDEF)
            a = list(a); a[i] = x; env[ins["id"]] = a
        elif op == "shufflevector":
            a, b = V(ins["a"][0]), V(ins["a"][1])
            if isinstance(a, Undef): a = [UNDEF] * 16
            if isinstance(b, Undef): b = [UNDEF] * len(a)
            ab = list(a) + list(b); env[ins["id"]] = [ab[i] if i >= 0 else UNDEF for i in ins["mask"]]
        elif op == "atomicrmw":
            p, v = V(ins["a"][0]), V(ins["a"][1]); ty = ins["ty"]
            old = self.load(st, ctx, p, ty, self.loc(ins))
            r = ins["rmw"]
            if r == "xchg": n = v
            else: n = self.binop(st, ctx, ins, {"add": "add", "sub": "sub", "and": "and", "or": "or", "xor": "xor"}[r], int(ty[1:]), old, v)
            self.store(st, ctx, p, n, ty, self.loc(ins)); env[ins["id"]] = old
        elif op == "cmpxchg":
            p, c, v = V(ins["a"][0]), V(ins["a"][1]), V(ins["a"][2]); ty = ins["vty"]
            old = self.load(st, ctx, p, ty, self.loc(ins)); eq = self.icmp(st, ctx, "eq", ty, old, c)
            if not isinstance(eq, bool): raise Unsupported("cmpxchg")
            if eq: self.store(st, ctx, p, v, ty, self.loc(ins))
            env[ins["id"]] = [old, eq]
        elif op == "fence": pass
        elif op == "landingpad": pass
        else: raise Unsupported("instruction " + op)

    def known(self, st, c):
        """decide a condition if the path already does"""
        if isinstance(c, bool): return c
        ci = c.get_id(); cn = negid(c)
        for p in st.pc:
            i = p.get_id()
            if i == ci: return True
            if i == cn or negid(p) == ci: return False
        return c

    def fop(self, st, ctx, ins, op, xs):
        xs = [self.fresh("f64", "undef") if isinstance(x, Undef) else toreal(x) for x in xs]
        if op == "fneg": return neg(xs[0])
        a, b = xs
        if op == "fadd": return add(a, b)
        if op == "fsub": return sub(a, b)
        if op == "fmul": return mul(a, b)
        if op == "fdiv":
            if isinstance(b, Fraction) and b == 0:
                self.notes.add("division of floats by zero yields an arbitrary number")
                return T.fresh_real("divzero")
            return rdiv(a, b)
        raise Unsupported(op)

    def cast(self, st, ctx, ins, op, v, fr, to):
        if isinstance(v, Undef): return UNDEF if op in ("freeze", "bitcast") or to[0] in "{[<" else self.fresh(to, "undef")
        if op == "freeze" or op == "bitcast":
            if op == "bitcast" and fr != to: return self.conv(v, to) if to[0] not in "<[" and fr[0] not in "<[" else self.bitcast_vec(st, v, fr, to)
            return v
        if op in ("fpext", "fptrunc"): return v
        if op == "ptrtoint": return v
        if op == "inttoptr": return self.conv(v, "ptr")
        if op == "sext":
            if fr == "i1": return neg(T.b2i(self.conv(v, "i1")))
            return self.flat(st, v)
        if op == "zext":
            if fr == "i1": return T.b2i(self.conv(v, "i1"))
            if isinstance(v, (bool, z3.BoolRef)): return T.b2i(v)
            return self.unsigned(st, v, int(fr[1:]))
        if op == "trunc":
            if isinstance(v, Ptr): raise Unsupported("truncated pointer")
            n = int(to[1:])
            if to == "i1":
                if isinstance(v, (bool, z3.BoolRef)): return v
                return self.num2bool(self.flat(st, v))
            if isinstance(v, Parts):
                if n % 8 == 0:
                    acc = []; q = 0
                    for b, x in v.p:
                        if q + b <= n // 8: acc.append((b, x)); q += b
                    if q == n // 8: return acc[0][1] if len(acc) == 1 else Parts(acc)
                v = self.flat(st, v)
            if isinstance(v, (bool, z3.BoolRef)): v = T.b2i(v)
            return self.wrap(st, v, n)
        if op == "sitofp":
            if fr == "i1": return toreal(neg(T.b2i(v)))
            if isinstance(v, (bool, z3.BoolRef)): v = T.b2i(v)
            return toreal(self.flat(st, v))
        if op == "uitofp":
            if isinstance(v, (bool, z3.BoolRef)): return toreal(T.b2i(v))
            return toreal(self.unsigned(st, self.flat(st, v), int(fr[1:])))
        if op in ("fptosi", "fptoui"):
            self.notes.add("float to integer conversions are assumed to be in range of the target type")
            v = toreal(v)
            if isinstance(v, Fraction):
                q = abs(v.numerator) // v.denominator
                return q if v >= 0 else -q
            # integral already?
            f = T.floor_(v)
            if isinstance(f, (int, Poly)) and isinstance(sub(toreal(f), v), Fraction): return f
            c = cmp("ge", v, Fraction(0))
            if not isinstance(c, bool):
                if not solver.feasible(st.pc, b_not(c), 400): c = True
                elif not solver.feasible(st.pc, c, 400): c = False
            if c is True: return f
            g = neg(T.floor_(neg(v)))
            if c is False: return g
            return T.ite(c, f, g)
        raise Unsupported(op)

    def bitcast_vec(self, st, v, fr, to):
        if fr[0] == "<" and to in ("f64", "i64"): return Parts([(4, x) for x in v])
        if fr in ("f64", "i64") and isinstance(v, Parts): return [x for _, x in v.p]
        raise Unsupported("bitcast %s -> %s" % (fr, to))

    def load_aggr(self, st, ctx, p, ty, leaves, loc):
        vals = [self.load(st, ctx, Ptr(p.o, add(p.off, off)), t, loc) for off, t in leaves]
        it = iter(vals)
        def build(t):
            if t[0] in "{[<": return [build(x) for x in split_ty(t)]
            return next(it)
        return build(ty)

    # ---------------------------------------------------------------- control
    def run_fn(self, st, ctx, name, args):
        """-> list of ('ret', st, val) / ('exc', st, (ptr, tinfo))"""
        fn = self.funcs[name]
        self.fn_executed.add(name)
        if ctx.depth > 400: raise Unsupported("recursion depth in " + fn.dem[:80])
        env = [None] * fn.nvals
        for (i, ty), a in zip(fn.args, args): env[i] = a
        c2 = ctx.copy(depth=ctx.depth + 1, exitflag=None)
        outs = self.run_region(fn, c2, [(st, env, 0, -1)], None, None)
        if self.opts["merge"] and len(outs) > 1: outs = self.merge_rets(st, outs)
        # stack objects of the frame die
        return outs

    def merge_rets(self, st0, outs):
        rets = [o for o in outs if o[0] == "ret"]
        if len(rets) < 2 or len(rets) > 24: return outs
        others = [o for o in outs if o[0] != "ret"]
        base = st0.pc
        # common prefix of path conditions
        pcs = [o[1].pc for o in rets]
        n = min(len(p) for p in pcs); k = 0
        while k < n and all(p[k].get_id() == pcs[0][k].get_id() for p in pcs): k += 1
        res = rets[0]; 
        acc_st, acc_v = rets[0][1], rets[0][2]
        acc_c = T.b_and(*pcs[0][k:])
        merged = [ (acc_st, acc_v, acc_c) ]
        for o, pc in zip(rets[1:], pcs[1:]):
            c = T.b_and(*pc[k:])
            done = False
            for i, (ms, mv, mc) in enumerate(merged):
                self.mpre = (pcs[0][:k], c, mc); self.names = o[1].vals.get("name", ())
                r = self.merge_two(c, o[1], o[2], ms, mv)
                self.mpre = None
                if r is not None:
                    merged[i] = (r[0], r[1], T.b_or(mc, c)); done = True; break
            if not done: merged.append((o[1], o[2], c))
        if len(merged) == len(rets): return outs
        out = []
        for s, v, c in merged:
            s.pc = pcs[0][:k]
            s.assume(self.simp_or(c))
            out.append(("ret", s, v))
        return out + others

    def simp_or(self, c):
        if isinstance(c, bool): return c
        s = z3.simplify(c)
        if z3.is_true(s): return True
        return c

    def merge_two(self, c, s1, v1, s2, v2):
        """c ? (s1,v1) : (s2,v2), or None"""
        try:
            v = None
            if v1 is not None or v2 is not None:
                v = self.mval(c, v1, v2)
            diffs = []
            for oid, o1 in s1.mem.items():
                o2 = s2.mem.get(oid)
                if o2 is None or o2 is o1: continue
                if o1.freed != o2.freed or o1.arrs is not None or o2.arrs is not None:
                    if o1.freed == o2.freed and o1.arrs is not None and o2.arrs is not None and o1.arrs.keys() == o2.arrs.keys() and all(o1.arrs[f] is o2.arrs[f] for f in o1.arrs): continue
                    return None
                if o1.size is not o2.size and not (o1.size == o2.size): return None
                for k in set(o1.cells) | set(o2.cells):
                    a, b = o1.cells.get(k), o2.cells.get(k)
                    if a is b: continue
                    if a is None or b is None:
                        x = a or b
                        if o1.kind == "stack": diffs.append((oid, k, x)); continue
                        return None
                    if a[0] != b[0]: return None
                    if a[1] is b[1] or (not z3.is_expr(a[1]) and not z3.is_expr(b[1]) and type(a[1]) is type(b[1]) and not isinstance(a[1], (Parts, list)) and a[1] == b[1]): continue
                    diffs.append((oid, k, (a[0], self.mval(c, a[1], b[1]))))
                    if len(diffs) > 16: return None
            r = s1.fork()
            for oid, o2 in s2.mem.items():
                if oid not in r.mem: r.mem[oid] = o2
            for oid, k, x in diffs: r.wobj(oid).cells[k] = x
            for kk, x in s2.vals.items():
                if kk not in r.vals: r.vals[kk] = x
            return r, v
        except (Unsupported, NeedFork):
            return None

    def mval(self, c, a, b):
        if a is b: return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b: return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o: return Ptr(a.o, T.ite_off(c, a.off, b.off))
            raise Unsupported("merge pointers")
        if isinstance(a, list):
            if not isinstance(b, list): raise Unsupported("merge")
            return [self.mval(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Undef) and isinstance(b, Undef): return a
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported("merge undef")
        if isinstance(a, (bool, z3.BoolRef)) != isinstance(b, (bool, z3.BoolRef)): raise Unsupported("merge types")
        # one of the two values may hold on both paths (x clipped to a range that it is in anyway)
        if self.mpre and isinstance(a, (int, T.Poly)) and isinstance(b, (int, T.Poly)) and not isinstance(a, bool) and not T.isreal(a) and not T.isreal(b):
            d = T.sub(a, b)
            if isinstance(d, T.Poly) and all(len(m) <= 1 for m in d.t) and len(d.t) <= 4:
                pre, c1, c2 = self.mpre; g = cmp("eq", a, b)
                if solver.prove(list(pre) + [c1], g, 300)[0] == "proved": return b
                if solver.prove(list(pre) + [c2], g, 300)[0] == "proved": return a
                for h in self.names:
                    if solver.prove(list(pre) + [c1], cmp("eq", a, h), 300)[0] == "proved" and solver.prove(list(pre) + [c2], cmp("eq", b, h), 300)[0] == "proved": return h
        r = self.ite(None, c, a, b)
        if isinstance(r, NeedFork): raise r
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.opts["steps"]: raise Budget("step budget exhausted")
        if (self.steps & 127) == 0 and self.deadline and time.time() > self.deadline: raise Budget("time budget exhausted")

    def run_region(self, fn, ctx, start, region, header):
        work = list(start)
        outs = []
        first = {id(w[1]) for w in work}
        npaths = 0
        while work:
            st, env, b, prev = work.pop()
            isfirst = id(env) in first and prev != -2
            if isfirst: first.discard(id(env))
            try:
                while True:
                    self.tick()
                    if region is not None and b not in region:
                        outs.append(("exit", st, env, prev, b)); break
                    if b == header and not isfirst:
                        outs.append(("back", st, env, prev)); break
                    if b in fn.loops and b != header:
                        res = self.exec_loop(fn, ctx, st, env, b, prev)
                        for o in res:
                            if o[0] == "exit": work.append((o[1], o[2], o[4], o[3]))
                            else: outs.append(o)
                        break
                    isfirst = False
                    nxt = self.run_block(fn, ctx, st, env, b, prev, work, outs, region)
                    if nxt is None: break
                    prev, b = b, nxt
            except Infeasible:
                pass
            if len(outs) + len(work) > self.opts["max_paths"]: raise Budget("path budget exhausted in " + fn.dem[:60])
        return outs

    def phis(self, fn, st, env, b, prev):
        blk = fn.blocks[b]; news = []
        for ins in blk:
            if ins["op"] != "phi": break
            for pb, o in ins["in"]:
                if pb == prev: news.append((ins["id"], self.val(st, env, o))); break
            else: raise Unsupported("phi without predecessor")
        for i, v in news: env[i] = v

    def run_block(self, fn, ctx, st, env, b, prev, work, outs, region, start=0):
        """returns next block or None; pushes forks onto work"""
        blk = fn.blocks[b]
        if start == 0 and blk and blk[0]["op"] == "phi" and prev != -3: self.phis(fn, st, env, b, prev)
        i = start
        while i < len(blk):
            ins = blk[i]; op = ins["op"]
            if op == "phi": i += 1; continue
            if op == "call" or op == "invoke":
                res = self.do_call(fn, ctx, st, env, ins)
                if res is None: i += 1; continue      # handled in place (env updated)
                # list of outcomes
                conts = []
                for k, (kind, s2, v) in enumerate(res):
                    e2 = env if k == len(res) - 1 else list(env)
                    if kind == "ret":
                        if "id" in ins: e2[ins["id"]] = v
                        conts.append((s2, e2, None))
                    else:
                        if op == "invoke": conts.append((s2, e2, v))
                        else: outs.append(("exc", s2, v))
                if not conts: return None
                last = None
                for k, (s2, e2, exc) in enumerate(conts):
                    if op == "invoke":
                        tb = ins["t"] if exc is None else ins["u"]
                        if exc is not None: s2.vals["exc"] = exc
                        work.append((s2, e2, tb, b))
                        
                    else:
                        if k == len(conts) - 1 and s2 is st: last = True; continue
                        # continue in this block after the call
                        self.cont_block(fn, ctx, s2, e2, b, prev, work, outs, region, i + 1)
                if last: i += 1; continue
                return None
            if op == "br":
                if "c" not in ins: return ins["t"]
                c = self.val(st, env, ins["c"])
                if isinstance(c, Undef): c = T.fresh_bool("undef")
                return self.branch(fn, ctx, st, env, b, ins, c, work, region)
            if op == "switch":
                v = self.val(st, env, ins["c"])
                if isinstance(v, Parts): v = self.flat(st, v)
                if isinstance(v, int):
                    for k, t in ins["cases"]:
                        if int(k) == v: return t
                    return ins["def"]
                rest = []
                for k, t in ins["cases"]:
                    c = cmp("eq", v, int(k))
                    rest.append(b_not(c))
                    if solver.feasible(st.pc, c):
                        s2 = st.fork(); s2.assume(c); work.append((s2, list(env), t, b))
                d = T.b_and(*rest)
                if solver.feasible(st.pc, d):
                    st.assume(d); return ins["def"]
                return None
            if op == "ret":
                v = self.val(st, env, ins["a"][0]) if ins["a"] else None
                outs.append(("ret", st, v)); return None
            if op == "unreachable":
                return None
            if op == "resume":
                outs.append(("exc", st, st.vals.get("exc"))); return None
            if op == "landingpad":
                exc = st.vals.get("exc")
                sel = 0
                for kind, cl in ins["cl"]:
                    if kind == "catch":
                        if cl[0] == "n" or self.exc_match(exc, cl):
                            sel = 1 if cl[0] == "n" else self.typeid(cl[1]); break
                env[ins["id"]] = [exc[0] if exc else NULL, sel]
                if sel == 0 and not ins["cleanup"]:
                    outs.append(("exc", st, exc)); return None
                i += 1; continue
            try:
                self.do_simple(st, ctx, env, ins, fn)
            except NeedFork as nf:
                # pointer select: fork on the condition and re-execute
                c = nf.c
                for cc in (c, b_not(c)):
                    if solver.feasible(st.pc, cc):
                        s2 = st.fork(); s2.assume(cc)
                        self.cont_block(fn, ctx, s2, list(env), b, prev, work, outs, region, i)
                return None
            i += 1
        raise Unsupported("block without terminator")

    def cont_block(self, fn, ctx, st, env, b, prev, work, outs, region, start):
        try:
            nxt = self.run_block(fn, ctx, st, env, b, prev, work, outs, region, start)
        except Infeasible:
            return
        if nxt is not None: work.append((st, env, nxt, b))

    def cond_operands(self, fn, st, env, b, ins):
        """the values that a branch condition compares (does it change from iteration to iteration?)"""
        for i in fn.blocks[b]:
            if i["op"] == "icmp" and ["r", i["id"]] == list(ins["c"])[:2]:
                try: return tuple(str(self.val(st, env, o)) for o in i["a"])
                except Exception: return None
        return None

    def branch(self, fn, ctx, st, env, b, ins, c, work, region):
        t, f = ins["t"], ins["f"]
        syntactic = isinstance(c, bool)
        if syntactic and region is not None and ctx.exitflag is not None:
            # a comparison of constants, or only known from the ranges of the operands?
            for i in fn.blocks[b]:
                if i["op"] == "icmp" and ["r", i["id"]] == list(ins["c"])[:2]:
                    for o in i["a"]:
                        x = self.val(st, env, o)
                        if isinstance(x, Ptr): x = x.off
                        if isinstance(x, Poly): syntactic = False
        c = self.known(st, c)
        exiting = region is not None and (t not in region) != (f not in region)
        probe = exiting and ctx.exitflag is not None and ctx.exitflag.get("mode") == "probe" and b == ctx.exitflag["header"]
        if isinstance(c, bool):
            if exiting and ctx.exitflag is not None:
                nxt = t if c else f
                if nxt in region:
                    ctx.exitflag["concrete" if syntactic else "weak"] = True
                    if syntactic: ctx.exitflag.setdefault("decided", {})[b] = self.cond_operands(fn, st, env, b, ins)
                    elif ctx.exitflag.get("mode") == "probe": ctx.exitflag["weaksym"] = True
                if probe and not syntactic: raise SymLoop(b)
            return t if c else f
        if probe: raise SymLoop(b)
        ft = solver.feasible(st.pc, c)
        ff = solver.feasible(st.pc, b_not(c)) if ft else True
        if not ft or not ff:
            cc = c if ft else b_not(c)
            if exiting and ctx.exitflag is not None:
                nxt = t if ft else f
                if nxt in region: ctx.exitflag["weak"] = ctx.exitflag["weaksym"] = True
            st.assume(cc)   # keep the derived fact
            return t if ft else f
        if exiting and ctx.exitflag is not None:
            ctx.exitflag.setdefault("symbolic", []).append(b)
            stay = c if t in region else b_not(c)
            ctx.exitflag.setdefault("conds", []).append(stay)
            if ctx.exitflag.get("mode") == "probe" and b == ctx.exitflag["header"] : raise SymLoop(b)
        s2 = st.fork()
        e2 = list(env)
        try:
            s2.assume(b_not(c)); work.append((s2, e2, f, b))
        except Infeasible: pass
        st.assume(c)
        return t

    def exc_match(self, exc, cl):
        if exc is None: return False
        want = cl[1]
        return want in self.bases(exc[1])

    def bases(self, ti):
        """typeinfo names of a class and all its bases"""
        seen = []
        todo = [ti]
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.append(t)
            g = self.globals.get(t)
            if g:
                for off, ty, c in g.get("init", ()):
                    if off >= 16 and ty == "ptr" and c[0] == "g" and c[1].startswith("_ZTI"): todo.append(c[1])
            STD = {"_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
                   "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt17bad_function_call": "_ZTISt9exception",
                   "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt8bad_cast": "_ZTISt9exception"}
            if t in STD: todo.append(STD[t])
        return seen

    _typeids = {}
    def typeid(self, name):
        return Exec._typeids.setdefault(name, 2 + len(Exec._typeids))

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, ctx, st, env, ins):
        f = ins["fn"]
        args = [self.val(st, env, o) if o[0] != "m" else None for o in ins["args"]]
        if f[0] == "asm": return None
        target = self.val(st, env, f)
        if isinstance(target, Undef) or not isinstance(target, Ptr): raise Unsupported("indirect call through unknown pointer at " + self.loc(ins))
        if not (isinstance(target.o, tuple) and target.o[0] == "f"):
            if target.o == 0:
                self.oblige(st, ctx, "call through null pointer", False, "bounds", self.loc(ins)); raise Infeasible()
            raise Unsupported("call of data at " + self.loc(ins))
        name = target.o[1]
        if "byval" in ins:
            for k, n in enumerate(ins["byval"]):
                if n:
                    p = self.alloc(st, n, "byval", kind="stack"); self.memcpy(st, ctx, p, args[k], n); args[k] = p
        return self.invoke_fn(ctx, st, env, ins, name, args)

    def invoke_fn(self, ctx, st, env, ins, name, args):
        h = self._extcache.get(name)
        if h is None:
            h = self.lookup(name)
            self._extcache[name] = h
        if h != "body":
            r = h(self, ctx, st, env, ins, name, args)
            if isinstance(r, tuple) and r and r[0] == "fork": return r[1]
            if r is DEFER: return self.run_fn(st, ctx, name, args)
            if ins is not None and "id" in ins: env[ins["id"]] = r
            if ins is not None and ins["op"] == "invoke": return [("ret", st, r)]
            return None if ins is not None else [("ret", st, r)]
        return self.run_fn(st, ctx, name, args)

    def lookup(self, name):
        b = self.builtins.get(name)
        if b: return b
        fn = self.funcs.get(name)
        if name.startswith("llvm."):
            from builtins_model import intrinsic
            return lambda ex, ctx, st, env, ins, n, a: intrinsic(ex, ctx, st, env, ins, n, a)
        if name.startswith("spec_"):
            from builtins_model import spec_call
            return spec_call
        dem = fn.dem if fn else name
        for rx, h, only_decl in self.patterns:
            if (not only_decl or fn is None or fn.decl) and rx.search(dem): return h
        if fn is not None and not fn.decl: return "body"
        def bad(ex, ctx, st, env, ins, n, a): raise Unsupported("external function " + dem[:120])
        return bad

    # ---------------------------------------------------------------- loops
    def exec_loop(self, fn, ctx, st, env, h, prev):
        region = fn.loops[h]
        key = (fn.name, h)
        if ctx.bounded or self.bound_request:
            return self.exec_loop_bounded(fn, ctx, st, env, h, prev, region)
        r = self.try_unroll(fn, ctx, st, env, h, prev, region)
        if r is not None: return r
        import loops
        return loops.exec_loop_inv(self, fn, ctx, st, env, h, prev, region)

    def try_unroll(self, fn, ctx, st, env, h, prev, region):
        s0 = st.fork(); e0 = list(env)
        nobl = len(self.obls)
        outs = []
        cur = [(st.fork(), list(env), prev)]
        it = 0; olddec = {}
        MAX = self.opts["unroll"]
        try:
            while cur:
                it += 1
                if it > MAX: raise SymLoop(h)
                nxt = []; prevdec = olddec; olddec = {}
                for (s, e, p) in cur:
                    flag = {"mode": "probe", "header": h}
                    c2 = ctx.copy(exitflag=flag, record=ctx.record)
                    o = self.run_region(fn, c2, [(s, e, h, p)], region, h)
                    backs = [x for x in o if x[0] == "back"]
                    # a guard that compares the same values in every iteration (an assertion, say) bounds nothing
                    dec = flag.get("decided", {})
                    if it > 1 and flag.get("concrete") and all(v is not None and prevdec.get(b) == v for b, v in dec.items()): flag["concrete"] = False
                    olddec.update(dec)
                    if self.opts.get("dbgu"): print("UNROLL", fn.looploc[h], it, {k: v for k, v in flag.items() if k != "conds"}, len(backs))
                    if backs and not flag.get("concrete") and (flag.get("symbolic") or flag.get("weak") or it > 64):
                        # not evidently bounded
                        if flag.get("symbolic") or it > 12 or (it > 1 and flag.get("weaksym")):
                            raise SymLoop(h)
                    for x in o:
                        if x[0] == "back": nxt.append((x[1], x[2], x[3]))
                        else: outs.append(x)
                if len(nxt) > 300: raise SymLoop(h)
                cur = nxt
            return outs
        except SymLoop as e:
            if e.header != h: raise
            self.symloops.add((fn.name, h))      # next time: no trial iteration unless the guard is a constant
            del self.obls[nobl:]
            st.mem = s0.mem; st.own = set(); st.pc = s0.pc; st.vals = s0.vals
            env[:] = e0
            return None

    def exec_loop_bounded(self, fn, ctx, st, env, h, prev, region):
        outs = []
        cur = [(st, env, prev)]
        it = 0
        while cur:
            it += 1
            nxt = []
            for (s, e, p) in cur:
                flag = {"mode": "bounded", "header": h}
                c2 = ctx.copy(exitflag=flag)
                o = self.run_region(fn, c2, [(s, e, h, p)], region, h)
                for x in o:
                    if x[0] == "back":
                        if flag.get("concrete") or it <= (ctx.bounded or self.bound_request): nxt.append((x[1], x[2], x[3]))
                        else: self.notes.add("bounded: loops unrolled at most %d times" % (ctx.bounded or self.bound_request))
                    else: outs.append(x)
            if it > self.opts["unroll"]: break
            cur = nxt
        return outs

class _Defer: pass
DEFER = _Defer()

class NeedFork(Exception):
    def __init__(self, c): self.c = c
def None_ptr(c, a, b): return NeedFork(c)

def split_ty(t):
    """element types of {..}, [nxT], <nxT>"""
    if t[0] in "[<":
        i = t.index("x"); return [t[i + 1:-1]] * int(t[1:i])
    out = []; d = 0; cur = ""
    for ch in t[1:-1]:
        if ch in "{[<": d += 1
        if ch in "}]>": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur: out.append(cur)
    return out

def flatten(v):
    if isinstance(v, list):
        r = []
        for x in v: r += flatten(x)
        return r
    return [v]

def insert(a, ix, x):
    a = list(a)
    if len(ix) == 1: a[ix[0]] = x
    else: a[ix[0]] = insert(a[ix[0]], ix[1:], x)
    return a
