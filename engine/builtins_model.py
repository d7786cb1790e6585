"""Models of what the IR calls but does not define: the contract intrinsics (vf_*), the C/C++ run time,
libm, and the few libstdc++ algorithms that are given by contract instead of by their (loop) bodies."""
import re
from fractions import Fraction
import z3
import terms as T
from terms import *
from mem import *
import solver
from exec import DEFER, Infeasible, State, Unsupported, Exec

BUILTINS = {}
def builtin(*names):
    def d(f):
        for n in names: BUILTINS[n] = f
        return f
    return d

def cstr(ex, st, p):
    o = st.mem[p.o]
    s = ""; i = p.off
    while True:
        c = o.cells.get(i)
        if c is None or c[1] == 0: break
        s += chr(c[1] & 255); i += 1
    return s

def fork_exc(st, p, ti): return ("fork", [("exc", st, (p, ti))])

# ------------------------------------------------------------------ contract intrinsics
def nondet(ex, ctx, st, name, mkv):
    k = ("nd", name); n = st.vals.get(k, 0); st.vals[k] = n + 1
    key = name if n == 0 else "%s#%d" % (name, n)
    if ctx.loops: return mkv(key)
    if key not in ex.nondets:
        ex.nondets[key] = mkv(key); ex.nd_order.append(key)
    return ex.nondets[key]

@builtin("vf_int", "vf_long")
def _vf_int(ex, ctx, st, env, ins, name, a):
    n = cstr(ex, st, a[0]); lo, hi = a[1], a[2]
    if isinstance(lo, int) and isinstance(hi, int):
        return nondet(ex, ctx, st, n, lambda k: T.fresh_int(k, lo, hi) if lo != hi else lo)
    def mkr(k):
        l, h = (T.bounds(lo)[0] if not isinstance(lo, int) else lo), (T.bounds(hi)[1] if not isinstance(hi, int) else hi)
        return T.fresh_int(k, -(1 << 31) if l is None else l, (1 << 31) - 1 if h is None else h)
    v = nondet(ex, ctx, st, n, mkr)
    st.assume(cmp("ge", v, lo)); st.assume(cmp("le", v, hi))
    return v
@builtin("vf_real")
def _vf_real(ex, ctx, st, env, ins, name, a): return nondet(ex, ctx, st, cstr(ex, st, a[0]), lambda k: T.fresh_real(k))
@builtin("vf_bool")
def _vf_bool(ex, ctx, st, env, ins, name, a): return nondet(ex, ctx, st, cstr(ex, st, a[0]), lambda k: T.fresh_bool(k))
@builtin("vf_assume")
def _vf_assume(ex, ctx, st, env, ins, name, a):
    c = ex.conv(a[0], "i1")
    if not solver.feasible(st.pc, c): raise Infeasible()
    st.assume(c)
@builtin("vf_assert")
def _vf_assert(ex, ctx, st, env, ins, name, a):
    ex.oblige(st, ctx, cstr(ex, st, a[1]), ex.conv(a[0], "i1"), "post", ex.loc(ins))
@builtin("vf_cover")
def _vf_cover(ex, ctx, st, env, ins, name, a):
    n = cstr(ex, st, a[1]); c = ex.conv(a[0], "i1")
    if ex.covers.get(n) is True: return
    r = solver.feasible(st.pc, c)
    ex.covers[n] = bool(r)
@builtin("vf_symbolic")
def _vf_sym(ex, ctx, st, env, ins, name, a): return True
@builtin("vf_bound")
def _vf_bound(ex, ctx, st, env, ins, name, a):
    ex.bound_request = a[0]
@builtin("vf_unroll")
def _vf_unroll(ex, ctx, st, env, ins, name, a):
    """complete unrolling (no bound): every later loop is unrolled until its guard is false"""
    ex.opts["case_unroll"] = a[0]

def uf(ex, fname, args, kind, lo=None, hi=None):
    """kind: real/int/bool"""
    zs = [toz(x) for x in args]
    f = z3.Function("uf_" + fname, *([z.sort() for z in zs] + [{"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[kind]]))
    app = f(*zs)
    T._keep.append(app)
    if kind == "bool": r = app
    else:
        r = fromz(app, fname)
        if kind == "int":
            at = T.ATOMS[list(r.t)[0][0]]
            if at.lo is None and lo is not None:
                at.lo, at.hi = lo, hi; at.facts += [at.z >= lo, at.z <= hi]
    k = (fname, app.get_id())
    if k not in ex.ufs:
        ex.ufs[k] = True; ex.uf_apps.append((fname, list(zs), app))
    return r
def num(ex, st, x):
    if isinstance(x, (bool, z3.BoolRef)): return T.b2i(x)
    return ex.flat(st, x)
@builtin("vf_fun1", "vf_fun2", "vf_fun3", "vf_rfun1", "vf_rfun2")
def _vf_fun(ex, ctx, st, env, ins, name, a):
    args = [num(ex, st, x) for x in a[1:]]
    if name.startswith("vf_r"): args = [toreal(x) for x in args]
    return uf(ex, cstr(ex, st, a[0]), args, "real")
@builtin("vf_ifun1", "vf_ifun2")
def _vf_ifun(ex, ctx, st, env, ins, name, a):
    return uf(ex, cstr(ex, st, a[0]), [num(ex, st, x) for x in a[1:-2]], "int", a[-2], a[-1])
@builtin("vf_bfun1", "vf_bfun2")
def _vf_bfun(ex, ctx, st, env, ins, name, a):
    return uf(ex, cstr(ex, st, a[0]), [num(ex, st, x) for x in a[1:]], "bool")

def fill_layer(ex, ctx, st, p, n, esz, valf, ty, stride=None):
    """p[i] = valf(i) for 0<=i<n"""
    stride = stride or esz
    if isinstance(n, int) and n <= 0: return
    if isinstance(p, Ptr) and p.o == 0:
        g = cmp("le", n, 0)
        ex.oblige(st, ctx, "fill through a null pointer only when empty", g, "bounds", ""); st.assume(g); return
    o = ex.check_ptr(st, ctx, p, 0, "fill", "")
    if o.size is not None and ctx.record:
        ex.oblige(st, ctx, "fill within %s" % o.name, b_and(cmp("ge", p.off, 0), cmp("le", add(add(p.off, scale(sub(n, 1), stride)), esz) if stride != esz else add(p.off, scale(n, esz)), o.size)), "bounds", "")
    if isinstance(n, int) and n <= 4096 and isinstance(p.off, int) and o.arrs is None:
        for i in range(n): ex.store(st, ctx, Ptr(p.o, p.off + i * stride), valf(st, i), ty)
        return
    ex.force_array(st, p.o, stride)
    w = st.wobj(p.o)
    if w.stride != stride: raise Unsupported("fill stride %d/%d" % (w.stride, stride))
    idx, f = ex.arr_index(w, p.off, esz)
    base = w.arrs.get(f) or Arr(esz, ("zero",) if w.zero else ("unk", {}))
    def fn(ex2, st2, ctx2, i, ty2, idx=idx): return valf(st2, sub(i, idx))
    w.arrs[f] = base.with_(("fn", idx, add(idx, n), fn))

def split_index(ex, st, i, w):
    """(i mod w, i div w), i>=0; recognises a + b*w"""
    if isinstance(i, int) and isinstance(w, int): return i % w, i // w
    if isinstance(w, Poly) and len(w.t) == 1:
        (m, c), = w.t.items()
        if c == 1 and len(m) == 1:
            q = T.coeff_of(i, m[0]) if isinstance(i, Poly) else 0
            r = sub(i, mul(q, w))
            for dq in (0, -1, 1):
                qq = add(q, dq); rr = sub(i, mul(qq, w))
                g = b_and(cmp("ge", rr, 0), cmp("lt", rr, w))
                if isinstance(g, bool):
                    if g: return rr, qq
                    continue
                if solver.prove(st.pc, g, 2000)[0] == "proved": return rr, qq
    elif isinstance(w, Poly):
        # try each way of writing i = r + q*w with q a coefficient of one of w's atoms
        cands = set()
        for m in w.t:
            for at in m:
                if isinstance(i, Poly):
                    q = T.coeff_of(i, at)
                    if w.t[m] == 1 and len(m) == 1: cands.add(q if isinstance(q, int) else q)
        for q in cands:
            for dq in (0, -1, 1):
                qq = add(q, dq); rr = sub(i, mul(qq, w))
                g = b_and(cmp("ge", rr, 0), cmp("lt", rr, w))
                if g is True or (not isinstance(g, bool) and solver.prove(st.pc, g, 2000)[0] == "proved"): return rr, qq
    q = divpoly(i, w, "f")
    return sub(i, mul(q, w)), q

FILLT = {"f": ("f32", 4, "real"), "d": ("f64", 8, "real"), "i": ("i32", 4, "int"), "u": ("i32", 4, "int"), "l": ("i64", 8, "int")}
@builtin("vf_fillf", "vf_filld")
def _vf_fill(ex, ctx, st, env, ins, name, a):
    ty, sz, kind = FILLT[name[-1]]; f = cstr(ex, st, a[2])
    fill_layer(ex, ctx, st, a[0], a[1], sz, lambda s, i: uf(ex, f, [i], kind), ty)
@builtin("vf_fill2f", "vf_fill2d", "vf_fill2i", "vf_fill2u", "vf_fill2l")
def _vf_fill2(ex, ctx, st, env, ins, name, a):
    ty, sz, kind = FILLT[name[-1]]; p, w, h, f, x0, y0 = a[:6]; f = cstr(ex, st, f)
    lo, hi = (a[6], a[7]) if len(a) > 6 else (None, None)
    def val(s, i):
        r, q = split_index(ex, s, i, w)
        return uf(ex, f, [add(r, x0), add(q, y0)], kind, lo, hi)
    fill_layer(ex, ctx, st, p, mul(w, h), sz, val, ty)
@builtin("vf_fieldi", "vf_fieldf", "vf_fieldd")
def _vf_field(ex, ctx, st, env, ins, name, a):
    """p[k] = f(c,k) for 0<=k<n, the cells lying `stride` bytes apart (a member of an array of structures)"""
    ty, sz, kind = FILLT[name[-1]]; p, n, stride, f, c = a[:5]; f = cstr(ex, st, f)
    lo, hi = (a[5], a[6]) if len(a) > 6 else (None, None)
    fill_layer(ex, ctx, st, p, n, sz, lambda s, i: uf(ex, f, [c, i], kind, lo, hi), ty, stride)
@builtin("vf_eq")
def _vf_eq(ex, ctx, st, env, ins, name, a): return cmp("eq", toreal(a[0]), toreal(a[1]))
@builtin("vf_le")
def _vf_le(ex, ctx, st, env, ins, name, a): return cmp("le", toreal(a[0]), toreal(a[1]))
@builtin("vf_ghost")
def _g(ex, ctx, st, env, ins, name, a): st.vals["ghost"] = st.vals.get("ghost", ()) + (a[0],)
@builtin("vf_index")
def _ix(ex, ctx, st, env, ins, name, a): st.vals["index"] = st.vals.get("index", ()) + (a[0],)
@builtin("vf_valuef", "vf_valuei")
def _vv(ex, ctx, st, env, ins, name, a): st.vals["value"] = st.vals.get("value", ()) + (a[0],)
@builtin("vf_name")
def _vn(ex, ctx, st, env, ins, name, a): st.vals["name"] = st.vals.get("name", ()) + (a[0],)
@builtin("vf_acc_")
def _va(ex, ctx, st, env, ins, name, a): st.vals["acc"] = st.vals.get("acc", ()) + ((a[0].o[1], a[1], tuple(num(ex, st, x) for x in a[2:])),)
@builtin("vf_inv_")
def _vi(ex, ctx, st, env, ins, name, a): st.vals["inv"] = st.vals.get("inv", ()) + ((a[0].o[1], a[1], a[2], tuple(x if T.isreal(x) else num(ex, st, x) for x in a[3:])),)
@builtin("vf_forget_hints")
def _vfh(ex, ctx, st, env, ins, name, a):
    for k in ("ghost", "index", "value", "acc", "inv"): st.vals.pop(k, None)
@builtin("vf_havoc")
def _vhv(ex, ctx, st, env, ins, name, a): raise Unsupported("vf_havoc")
@builtin("vf_spec_unfold")
def _vs(ex, ctx, st, env, ins, name, a): ex.spec_fuel = a[0]
@builtin("vf_note")
def _vn(ex, ctx, st, env, ins, name, a): pass

# ------------------------------------------------------------------ specification functions
def spec_call(ex, ctx, st, env, ins, name, a):
    fn = ex.funcs[name]
    args = []
    for (i, ty), x in zip(fn.args, a):
        if ty == "ptr": raise Unsupported("pointer argument of a specification function")
        args.append(toreal(x) if ty in ("f64", "f32") else num(ex, st, x))
    if all(isnum(x) for x in args) and all(isinstance(x, int) for x in args) and sum(abs(x) for x in args) <= 64 and not ex.spec_stack_deep():
        r = eval_spec(ex, name, args, fuel=None)
        if r is not None: return r
    rt = fn.j["ret"]
    kind = "bool" if rt == "i1" else "real" if rt in ("f64", "f32") else "int"
    r = uf(ex, name, args, kind)
    key = (name,) + tuple(x if isnum(x) else x.key() for x in args)
    if ex.spec_fuel > 0 and key not in ex.spec_done:
        ex.spec_done[key] = True
        body = eval_spec(ex, name, args, ex.spec_fuel - 1)
        if body is not None:
            if kind == "bool":
                fact = T.b_eq(r, body)
                if not isinstance(fact, bool): T.add_lemma(r, [fact])
            else:
                at = T.ATOMS[list(r.t)[0][0]]
                fact = cmp("eq", r, body)
                if not isinstance(fact, bool): at.facts.append(fact)
    return r

def eval_spec(ex, name, args, fuel):
    s = State()
    s.mem = {k: v for k, v in ex.spec_mem.items()}
    from exec import Ctx
    c = Ctx(); c.record = False
    old = ex.spec_fuel
    ex.spec_depth += 1
    try:
        if fuel is not None: ex.spec_fuel = fuel
        fn = ex.funcs[name]
        vals = [x for x in args]
        outs = ex.run_fn(s, c, name, vals)
    finally:
        ex.spec_fuel = old
        ex.spec_depth -= 1
    r = None
    for kind, s2, v in outs:
        if kind != "ret": return None
        cnd = T.b_and(*s2.pc)
        r = v if r is None else ex.ite(s2, cnd, v, r)
    return r

# ------------------------------------------------------------------ allocation
@builtin("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t")
def _new(ex, ctx, st, env, ins, name, a):
    n = a[0]
    if not isinstance(n, (int, Poly)): n = ex.flat(st, n)
    return ex.alloc(st, n, "heap@%s" % ex.loc(ins))
@builtin("calloc")
def _calloc(ex, ctx, st, env, ins, name, a): return ex.alloc(st, mul(a[0], a[1]), "heap@%s" % ex.loc(ins), zero=True)
@builtin("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def _del(ex, ctx, st, env, ins, name, a):
    p = a[0]
    if not isinstance(p, Ptr): raise Unsupported("delete of unknown pointer")
    if p.o == 0: return
    o = st.mem.get(p.o)
    if o is None: raise Unsupported("delete of unknown object")
    if o.freed: ex.oblige(st, ctx, "double free", False, "bounds", ex.loc(ins)); raise Infeasible()
    if o.kind != "heap" or p.off != 0: ex.oblige(st, ctx, "free of something not allocated", False, "bounds", ex.loc(ins)); raise Infeasible()
    st.wobj(p.o).freed = True

# ------------------------------------------------------------------ exceptions and run time
@builtin("__cxa_allocate_exception")
def _cae(ex, ctx, st, env, ins, name, a): return ex.alloc(st, a[0] if isinstance(a[0], int) else None, "exception")
@builtin("__cxa_throw")
def _ct(ex, ctx, st, env, ins, name, a): return fork_exc(st, a[0], a[1].o[1])
@builtin("__cxa_begin_catch")
def _cbc(ex, ctx, st, env, ins, name, a):
    st.vals["caught"] = st.vals.get("caught", ()) + ((a[0], st.vals.get("exc")),)
    return a[0]
@builtin("__cxa_end_catch")
def _cec(ex, ctx, st, env, ins, name, a): st.vals["caught"] = st.vals.get("caught", ((0, 0),))[:-1]
@builtin("__cxa_rethrow")
def _crt(ex, ctx, st, env, ins, name, a):
    e = st.vals["caught"][-1][1]
    return ("fork", [("exc", st, e)])
@builtin("__cxa_free_exception", "__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_finalize", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev")
def _nop(ex, ctx, st, env, ins, name, a): return 0
@builtin("__clang_call_terminate", "_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_call_unexpected", "__stack_chk_fail")
def _term(ex, ctx, st, env, ins, name, a):
    ex.oblige(st, ctx, "the program does not terminate abnormally (%s)" % name, False, "bounds", ex.loc(ins)); raise Infeasible()
@builtin("__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def _af(ex, ctx, st, env, ins, name, a):
    ex.oblige(st, ctx, "assert() in the code holds", False, "bounds", ex.loc(ins)); raise Infeasible()
@builtin("__cxa_guard_acquire")
def _cga(ex, ctx, st, env, ins, name, a):
    v = ex.load(st, ctx, a[0], "i8"); return 1 if v == 0 else 0
@builtin("__cxa_guard_release")
def _cgr(ex, ctx, st, env, ins, name, a): ex.store(st, ctx, a[0], 1, "i8")
@builtin("__cxa_bad_cast", "__cxa_bad_typeid")
def _cbcst(ex, ctx, st, env, ins, name, a): return fork_exc(st, ex.alloc(st, 16, "exception"), "_ZTISt8bad_cast")
@builtin("__dynamic_cast")
def _dc(ex, ctx, st, env, ins, name, a):
    p, src, dst = a[0], a[1].o[1], a[2].o[1]
    if p.o == 0: return NULL
    vt = ex.load(st, ctx, p, "ptr")
    dyn, tooff = vtable_info(ex, st, vt)
    full = Ptr(p.o, add(p.off, tooff))
    offs = base_offsets(ex, st, dyn)
    ex.trusted.add("__dynamic_cast (run-time type from the vtable, offsets from the type information)")
    if dst in offs: return Ptr(full.o, add(full.off, offs[dst]))
    return NULL
def vtable_info(ex, st, vt):
    g = st.mem[vt.o]
    ti = g.cells.get(vt.off - 8); to = g.cells.get(vt.off - 16)
    if ti is None: raise Unsupported("vtable layout")
    tv = to[1] if to else 0
    return ti[1].o[1], (tv.off if isinstance(tv, Ptr) else tv)
def base_offsets(ex, st, ti):
    """typeinfo name -> offset of that (non virtual) base in an object of type ti"""
    r = {ti: 0}
    g = ex.globals.get(ti)
    if not g or g.get("extern"): return r
    init = {off: (ty, c) for off, ty, c in g.get("init", ())}
    bases = []
    vt = init.get(0)
    kind = vt[1][2][1] if vt and vt[1][0] == "ce" else (vt[1][1] if vt else "")
    s = repr(vt)
    if "__vmi_class_type_info" in s:
        o = 24
        while o in init and init[o][0] == "ptr":
            fl = int(init[o + 8][1][2]); bases.append((init[o][1][1], fl >> 8)); o += 16
    elif "__si_class_type_info" in s:
        bases.append((init[16][1][1], 0))
    for b, off in bases:
        for n, o2 in base_offsets(ex, st, b).items(): r.setdefault(n, off + o2)
    return r

# ------------------------------------------------------------------ libm
def real(x): return toreal(x)
def sqrt_(ex, st, x):
    x = toreal(x)
    if isinstance(x, Fraction) and x >= 0:
        from math import isqrt
        n, d = isqrt(x.numerator), isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    k = ("sqrt", x if isinstance(x, Fraction) else x.key())
    p = T._unc.get(k)
    if p is None:
        f = z3.Function("fn_sqrt", z3.RealSort(), z3.RealSort())
        p = fromz(f(toz(x)), "sqrt")
        at = T.ATOMS[list(p.t)[0][0]]
        sq = mul(p, p)
        at.facts += [z3.Implies(toz(x) >= 0, z3.And(at.z >= 0, toz(sq) == toz(x))), z3.Implies(toz(x) > 0, at.z > 0)]
        T._unc[k] = p
        # sqrt is monotone: relate with the other square roots in use
        for (x2, p2) in SQRTS:
            z2 = toz(x2); pz2 = toz(p2)
            at.facts.append(z3.Implies(z3.And(z2 >= 0, toz(x) >= z2), at.z >= pz2))
            at.facts.append(z3.Implies(z3.And(toz(x) >= 0, z2 >= toz(x)), pz2 >= at.z))
        SQRTS.append((x, p))
    return p
SQRTS = []
def lnf(ex, st, x):
    x = toreal(x)
    if isinstance(x, Fraction) and x == 1: return Fraction(0)
    if isinstance(x, Poly) and len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and T.ATOMS[m[0]].name == "exp": return EXPARG[m[0]]
    p = T.unary("log", x, lambda a, v: [z3.Implies(a == 1, v == 0), z3.Implies(a > 1, v > 0), z3.Implies(z3.And(a > 0, a < 1), v < 0)])
    if isinstance(p, Poly): LOGARG[list(p.t)[0][0]] = x
    return p
EXPARG = {}; LOGARG = {}
def expf(ex, st, x):
    x = toreal(x)
    if isinstance(x, Fraction) and x == 0: return Fraction(1)
    k = ("exp", x if isinstance(x, Fraction) else x.key())
    p = T._unc.get(k)
    if p is not None: return p
    f = z3.Function("fn_exp", z3.RealSort(), z3.RealSort())
    p = fromz(f(toz(x)), "exp")
    i = list(p.t)[0][0]; at = T.ATOMS[i]
    zx = toz(x)
    at.facts += [at.z > 0, z3.Implies(zx == 0, at.z == 1), z3.Implies(zx > 0, at.z > 1), z3.Implies(zx < 0, at.z < 1)]
    EXPARG[i] = x
    T._unc[k] = p
    # exp of logarithms: exp(log a) = a ; exp(c + log a) handled through exp(c)*a when it occurs
    if isinstance(x, Poly):
        for m, c in list(x.t.items()):
            if len(m) == 1 and m[0] in LOGARG and c == 1:
                a = LOGARG[m[0]]
                rest = sub(x, Poly({m: c}, True))
                v = a if isinstance(rest, Fraction) and rest == 0 else mul(a, expf(ex, st, rest))
                at.facts.append(z3.Implies(toz(a) > 0, at.z == toz(v)))
                break
    # exp(-x) * exp(x) = 1
    y = neg(x)
    ky = ("exp", y if isinstance(y, Fraction) else y.key())
    if ky in T._unc:
        at.facts.append(toz(mul(p, T._unc[ky])) == 1)
    return p
def trig(ex, st, x):
    """(cos, sin)"""
    x = toreal(x)
    if isinstance(x, Fraction) and x == 0: return Fraction(1), Fraction(0)
    neg_ = False
    if isinstance(x, Poly) and sorted(x.t.items())[-1][1] < 0: x = neg(x); neg_ = True
    k = ("trig", x if isinstance(x, Fraction) else x.key())
    r = T._unc.get(k)
    if r is None:
        c = T.unary("cos", x, lambda a, v: []); s = T.unary("sin", x, lambda a, v: [])
        ca, sa = T.ATOMS[list(c.t)[0][0]], T.ATOMS[list(s.t)[0][0]]
        one = toz(add(mul(c, c), mul(s, s))) == 1
        ca.facts += [one, ca.z <= 1, ca.z >= -1]; sa.facts += [one, sa.z <= 1, sa.z >= -1]
        r = T._unc[k] = (c, s)
    return (r[0], neg(r[1])) if neg_ else r
def powf(ex, st, x, y):
    x, y = toreal(x), toreal(y)
    if isinstance(y, Fraction):
        if y == 0: return Fraction(1)
        if y == 1: return x
        if y.denominator == 1 and 0 < y <= 8:
            r = x
            for _ in range(int(y) - 1): r = mul(r, x)
            return r
        if y == Fraction(1, 2): return sqrt_(ex, st, x)
        if y.denominator == 1 and -4 <= y < 0: return T.rdiv(Fraction(1), powf(ex, st, x, -y))
    if isinstance(x, Fraction) and x == 1: return Fraction(1)
    k = ("pow", x if isinstance(x, Fraction) else x.key(), y if isinstance(y, Fraction) else y.key())
    p = T._unc.get(k)
    if p is None:
        f = z3.Function("fn_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        p = fromz(f(toz(x), toz(y)), "pow"); at = T.ATOMS[list(p.t)[0][0]]
        at.facts += [z3.Implies(toz(x) > 0, at.z > 0), z3.Implies(toz(x) == 1, at.z == 1), z3.Implies(z3.And(toz(x) >= 0, toz(y) > 0), at.z >= 0)]
        T._unc[k] = p
    return p
def un(name): return lambda ex, st, x: T.unary(name, toreal(x), lambda a, v: [])
def round_(ex, st, x):
    x = toreal(x)
    h = Fraction(1, 2)
    c = cmp("ge", x, Fraction(0))
    up = lambda: T.floor_(add(x, h)); dn = lambda: neg(T.floor_(add(neg(x), h)))
    if isinstance(c, bool): return up() if c else dn()
    if not solver.feasible(st.pc, b_not(c), 400): return up()
    if not solver.feasible(st.pc, c, 400): return dn()
    return T.ite(c, up(), dn())
def trunc_(ex, st, x):
    x = toreal(x)
    c = cmp("ge", x, Fraction(0))
    if isinstance(c, bool): return T.floor_(x) if c else neg(T.floor_(neg(x)))
    if not solver.feasible(st.pc, b_not(c), 400): return T.floor_(x)
    if not solver.feasible(st.pc, c, 400): return neg(T.floor_(neg(x)))
    return T.ite(c, T.floor_(x), neg(T.floor_(neg(x))))
def fabs_(ex, st, x):
    x = toreal(x); c = cmp("ge", x, Fraction(0))
    if not isinstance(c, bool):
        if not solver.feasible(st.pc, b_not(c), 300): return x
    return T.ite(c, x, neg(x))
def fmod_(ex, st, x, y):
    x, y = toreal(x), toreal(y)
    q = trunc_(ex, st, T.rdiv(x, y))
    return sub(x, mul(toreal(q), y))
MATH = {"sqrt": sqrt_, "exp": expf, "log": lnf, "fabs": fabs_,
        "floor": lambda ex, st, x: toreal(T.floor_(toreal(x))), "ceil": lambda ex, st, x: toreal(neg(T.floor_(neg(toreal(x))))),
        "round": lambda ex, st, x: toreal(round_(ex, st, x)), "trunc": lambda ex, st, x: toreal(trunc_(ex, st, x)),
        "sin": lambda ex, st, x: trig(ex, st, x)[1], "cos": lambda ex, st, x: trig(ex, st, x)[0],
        "pow": powf, "fmod": fmod_, "tan": un("tan"), "atan": un("atan"), "asin": un("asin"), "acos": un("acos"), "log10": un("log10"), "log2": un("log2"),
        "exp2": un("exp2"), "tgamma": un("tgamma"), "lgamma": un("lgamma"), "erf": un("erf"), "erfc": un("erfc"), "sinh": un("sinh"), "cosh": un("cosh"), "tanh": un("tanh"),
        "cbrt": un("cbrt"),
        "hypot": lambda ex, st, x, y: sqrt_(ex, st, add(mul(toreal(x), toreal(x)), mul(toreal(y), toreal(y)))),
        "fmin": lambda ex, st, x, y: T.ite(cmp("lt", toreal(y), toreal(x)), toreal(y), toreal(x)),
        "fmax": lambda ex, st, x, y: T.ite(cmp("lt", toreal(x), toreal(y)), toreal(y), toreal(x)),
        "fma": lambda ex, st, x, y, z: add(mul(toreal(x), toreal(y)), toreal(z)),
        "lround": round_, "llround": round_, "rint": None, "nearbyint": None}
TRUSTED_MATH = {"exp", "log", "sin", "cos", "pow", "sqrt", "tan", "atan", "asin", "acos", "log10", "exp2", "log2", "tgamma", "hypot"}
def mk_math(n, f):
    def h(ex, ctx, st, env, ins, name, a):
        if f is None: raise Unsupported("libm " + n)
        if n in TRUSTED_MATH: ex.trusted.add("libm %s (real function with the listed algebraic facts)" % n)
        a = [ex.fresh("f64", "undef") if isinstance(x, Undef) else x for x in a]
        return f(ex, st, *a)
    return h
for _n, _f in MATH.items():
    for _s in ("", "f", "l"): BUILTINS[_n + _s] = mk_math(_n, _f)
@builtin("atan2", "atan2f")
def _atan2(ex, ctx, st, env, ins, name, a):
    f = z3.Function("fn_atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    ex.trusted.add("libm atan2 (uninterpreted)")
    return fromz(f(toz(toreal(a[0])), toz(toreal(a[1]))), "atan2")
@builtin("sincos")
def _sincos(ex, ctx, st, env, ins, name, a):
    c, s = trig(ex, st, a[0]); ex.store(st, ctx, a[1], s, "f64"); ex.store(st, ctx, a[2], c, "f64")
@builtin("sincosf")
def _sincosf(ex, ctx, st, env, ins, name, a):
    c, s = trig(ex, st, a[0]); ex.store(st, ctx, a[1], s, "f32"); ex.store(st, ctx, a[2], c, "f32")
@builtin("abs", "labs", "llabs")
def _abs(ex, ctx, st, env, ins, name, a): return T.ite(cmp("ge", a[0], 0), a[0], neg(a[0]))
@builtin("rand", "random")
def _rand(ex, ctx, st, env, ins, name, a): return T.fresh_int("rand", 0, (1 << 31) - 1)

# ------------------------------------------------------------------ strings and memory functions of libc
@builtin("strlen")
def _strlen(ex, ctx, st, env, ins, name, a): return len(cstr_any(ex, st, ctx, a[0]))
def cstr_any(ex, st, ctx, p):
    s = ""; i = 0
    while i < 5000:
        c = ex.load(st, ctx, Ptr(p.o, add(p.off, i)), "i8")
        if not isinstance(c, int): raise Unsupported("symbolic string")
        if c == 0: return s
        s += chr(c & 255); i += 1
    raise Unsupported("string")
@builtin("strcmp")
def _strcmp(ex, ctx, st, env, ins, name, a):
    if a[0] == a[1]: return 0
    x, y = cstr_any(ex, st, ctx, a[0]), cstr_any(ex, st, ctx, a[1])
    return (x > y) - (x < y)
@builtin("memcmp", "bcmp")
def _memcmp(ex, ctx, st, env, ins, name, a):
    if not isinstance(a[2], int): raise Unsupported("memcmp of symbolic length")
    for i in range(a[2]):
        x = ex.load(st, ctx, Ptr(a[0].o, add(a[0].off, i)), "i8"); y = ex.load(st, ctx, Ptr(a[1].o, add(a[1].off, i)), "i8")
        if not isinstance(x, int) or not isinstance(y, int): raise Unsupported("symbolic memcmp")
        if x != y: return (x & 255) - (y & 255)
    return 0
@builtin("memchr")
def _memchr(ex, ctx, st, env, ins, name, a): raise Unsupported("memchr")
@builtin("memcpy", "memmove")
def _memcpyf(ex, ctx, st, env, ins, name, a): ex.memcpy(st, ctx, a[0], a[1], a[2], ex.loc(ins)); return a[0]
@builtin("memset")
def _memsetf(ex, ctx, st, env, ins, name, a): ex.memset(st, ctx, a[0], a[1], a[2], ex.loc(ins)); return a[0]
@builtin("_ZSt11_Hash_bytesPKvmm")
def _hb(ex, ctx, st, env, ins, name, a):
    # hash of a constant byte string: FNV, a function of the content
    h = 1469598103934665603
    for i in range(a[1]):
        x = ex.load(st, ctx, Ptr(a[0].o, add(a[0].off, i)), "i8")
        if not isinstance(x, int): raise Unsupported("hash of symbolic bytes")
        h = ((h ^ (x & 255)) * 1099511628211) & ((1 << 64) - 1)
    ex.trusted.add("std::_Hash_bytes (some function of the bytes)")
    return ex.wrap(st, h, 64)

@builtin("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once", "pthread_key_create", "__gthread_active_p", "sched_yield",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock")
def _pth(ex, ctx, st, env, ins, name, a):
    ex.notes.add("single thread: locks are no-ops"); return 0

def _minmax(ismax):
    def f(ex, ctx, st, env, ins, name, a):
        if not ex.opts.get("minmax"): return DEFER
        x = ex.load(st, ctx, a[0], "i32"); y = ex.load(st, ctx, a[1], "i32")
        c = cmp("lt", x, y)
        if not isinstance(c, bool): c = ex.known(st, c)
        if isinstance(c, bool): return a[1] if c == ismax else a[0]
        # one path instead of two; the reference denotes a copy of the chosen value
        (xl, xh), (yl, yh) = T.bounds(x), T.bounds(y)
        lo = None if None in (xl, yl) else (max if ismax else min)(xl, yl); hi = None if None in (xh, yh) else (max if ismax else min)(xh, yh)
        m = T.fresh_int("max" if ismax else "min", -(1 << 31) if lo is None else lo, (1 << 31) - 1 if hi is None else hi)
        o = "ge" if ismax else "le"
        st.assume(cmp(o, m, x)); st.assume(cmp(o, m, y)); st.assume(b_or(cmp("eq", m, x), cmp("eq", m, y)))
        p = ex.alloc(st, 4, "minmax", kind="stack"); ex.store(st, ctx, p, m, "i32")
        return p
    return f
BUILTINS["_ZSt3maxIiERKT_S2_S2_"] = _minmax(True)
BUILTINS["_ZSt3minIiERKT_S2_S2_"] = _minmax(False)
def _rminmax(ismax, ty, size):
    def f(ex, ctx, st, env, ins, name, a):
        if not ex.opts.get("minmax"): return DEFER
        x = ex.load(st, ctx, a[0], ty); y = ex.load(st, ctx, a[1], ty)
        if isinstance(x, Undef) or isinstance(y, Undef): return DEFER
        c = cmp("lt", x, y)
        if not isinstance(c, bool): c = ex.known(st, c)
        if isinstance(c, bool): return a[1] if c == ismax else a[0]
        m = T.fresh_real("max" if ismax else "min"); o = "ge" if ismax else "le"
        st.assume(cmp(o, m, x)); st.assume(cmp(o, m, y)); st.assume(b_or(cmp("eq", m, x), cmp("eq", m, y)))
        p = ex.alloc(st, size, "minmax", kind="stack"); ex.store(st, ctx, p, m, ty)
        return p
    return f
for _t, _ty, _s in (("d", "f64", 8), ("f", "f32", 4)):
    BUILTINS["_ZSt3maxI%sERKT_S2_S2_" % _t] = _rminmax(True, _ty, _s)
    BUILTINS["_ZSt3minI%sERKT_S2_S2_" % _t] = _rminmax(False, _ty, _s)

# ------------------------------------------------------------------ llvm intrinsics
def intrinsic(ex, ctx, st, env, ins, name, a):
    n = name[5:]
    b = n.split(".")[0]
    if b in ("dbg", "lifetime", "assume", "experimental", "invariant", "prefetch", "va_start", "va_end", "donothing", "stackrestore"): return None
    if n.startswith("memcpy") or n.startswith("memmove"): ex.memcpy(st, ctx, a[0], a[1], a[2], ex.loc(ins)); return None
    if n.startswith("memset"): ex.memset(st, ctx, a[0], a[1], a[2], ex.loc(ins)); return None
    if n.startswith("eh.typeid.for"): return ex.typeid(a[0].o[1])
    if b == "trap": return _term(ex, ctx, st, env, ins, name, a)
    if b == "expect": return a[0]
    if b == "stacksave": return NULL
    if b == "is": # is.fpclass / is.constant
        if n.startswith("is.fpclass"):
            ex.notes.add("floating point values are finite (no NaN, no infinity)")
            return False
        return False
    if b == "objectsize": return -1
    if b in MATH and MATH[b]: return mk_math(b, MATH[b])(ex, ctx, st, env, ins, name, a)
    if b in ("minnum", "minimum"): return MATH["fmin"](ex, st, *a)
    if b in ("maxnum", "maximum"): return MATH["fmax"](ex, st, *a)
    if b == "fmuladd" or b == "fma": return add(mul(toreal(a[0]), toreal(a[1])), toreal(a[2]))
    if b == "powi": return powf(ex, st, a[0], toreal(a[1]))
    if b == "copysign":
        c = cmp("ge", toreal(a[1]), Fraction(0)); m = fabs_(ex, st, a[0]); return T.ite(c, m, neg(m))
    if b in ("smax", "smin", "umax", "umin"):
        x, y = a
        if isinstance(x, Ptr): raise Unsupported("pointer max")
        x, y = num(ex, st, x), num(ex, st, y)
        if b[0] == "u":
            bits = int(n.split(".")[1][1:]); cx, cy = ex.unsigned(st, x, bits), ex.unsigned(st, y, bits)
        else: cx, cy = x, y
        c = cmp("lt", cx, cy)
        return T.ite(c, y, x) if b.endswith("max") else T.ite(c, x, y)
    if b == "abs": return T.ite(cmp("ge", a[0], 0), a[0], neg(a[0]))
    if n.startswith(("umul.with.overflow", "uadd.with.overflow", "usub.with.overflow", "sadd.with.overflow", "smul.with.overflow", "ssub.with.overflow")):
        bits = int(n.split(".")[-1][1:]); op = n[1:4]; u = n[0] == "u"
        x, y = (ex.unsigned(st, v, bits) if u else v for v in a[:2])
        r = {"mul": mul, "add": add, "sub": sub}[op](x, y)
        lo, hi = (0, (1 << bits) - 1) if u else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        ov = b_not(b_and(cmp("ge", r, lo), cmp("le", r, hi)))
        return [ex.wrap(st, r, bits) if ov is not False or u else r, ov]
    if b in ("ctpop",):
        bits = int(n.split(".")[1][1:])
        r = 0
        for x in ex.bits_of(st, num(ex, st, a[0]), bits): r = add(r, T.b2i(x))
        return r
    if b in ("ctlz", "cttz"):
        bits = int(n.split(".")[1][1:])
        bs = ex.bits_of(st, num(ex, st, a[0]), bits)
        seq = list(enumerate(bs)) if b == "cttz" else [(bits - 1 - i, x) for i, x in reversed(list(enumerate(bs)))]
        r = bits
        for i, x in reversed(seq): r = T.ite(x, i, r) if not isinstance(x, bool) else (i if x else r)
        return r
    raise Unsupported("intrinsic " + name)

# ------------------------------------------------------------------ libstdc++ by demangled name
PATTERNS = []
def pattern(rx, only_decl=False):
    def d(f): PATTERNS.append((re.compile(rx), f, only_decl)); return f
    return d

THROWS = {"out_of_range": "_ZTISt12out_of_range", "length_error": "_ZTISt12length_error", "logic_error": "_ZTISt11logic_error", "bad_function_call": "_ZTISt17bad_function_call",
          "bad_alloc": "_ZTISt9bad_alloc", "invalid_argument": "_ZTISt16invalid_argument", "runtime_error": "_ZTISt13runtime_error", "bad_array_new_length": "_ZTISt9bad_alloc",
          "bad_optional_access": "_ZTISt9exception", "bad_weak_ptr": "_ZTISt9exception", "bad_cast": "_ZTISt8bad_cast", "out_of_range_fmt": "_ZTISt12out_of_range", "bad_variant_access": "_ZTISt9exception",
          "system_error": "_ZTISt13runtime_error"}
@pattern(r"^std::__throw_(\w+)\(")
def _thr(ex, ctx, st, env, ins, name, a):
    dem = ex.funcs[name].dem
    k = re.match(r"^std::__throw_(\w+)\(", dem).group(1)
    return fork_exc(st, ex.alloc(st, 16, "exception"), THROWS.get(k, "_ZTISt9exception"))

@pattern(r"^std::(logic_error|runtime_error|out_of_range|invalid_argument|length_error|domain_error|range_error|exception|bad_cast|bad_alloc|bad_function_call)::", only_decl=True)
def _exc(ex, ctx, st, env, ins, name, a): return NULL
@pattern(r"^std::(basic_)?(ostream|istream|iostream|ios|stringstream|ostringstream|stringbuf|streambuf|locale|ios_base)|^std::basic_(ostream|istream|ios|stringstream|ostringstream|stringbuf|streambuf)|^std::basic_ostream.* std::(operator<<|endl|flush|__ostream_insert)|^std::ostream& std::", only_decl=True)
def _ios(ex, ctx, st, env, ins, name, a):
    ex.notes.add("text output is not modelled")
    return a[0] if a else NULL

IRTY = {"float": ("f32", 4), "double": ("f64", 8), "int": ("i32", 4), "unsigned int": ("i32", 4), "long": ("i64", 8), "unsigned long": ("i64", 8), "char": ("i8", 1), "unsigned char": ("i8", 1),
        "bool": ("i8", 1), "short": ("i16", 2), "unsigned short": ("i16", 2)}
def elem_ty(t):
    t = t.strip()
    if t.endswith("*"): return ("ptr", 8)
    return IRTY.get(t)

def do_fill(ex, ctx, st, p, n, v, ty, sz):
    ex.trusted.add("std::fill / fill_n / uninitialized_fill on scalars (by contract)")
    if isinstance(n, int) and n <= 4096:
        for i in range(n): ex.store(st, ctx, Ptr(p.o, add(p.off, i * sz)), v, ty)
        return
    o = ex.check_ptr(st, ctx, p, 0, "fill", "")
    if o.size is not None and ctx.record:
        ex.oblige(st, ctx, "fill within %s" % o.name, b_or(cmp("le", n, 0), b_and(cmp("ge", p.off, 0), cmp("le", add(p.off, scale(n, sz)), o.size))), "bounds", "")
    # whole object
    ex.force_array(st, p.o, sz)
    w = st.wobj(p.o)
    if w.stride != sz: raise Unsupported("fill stride %d/%d" % (w.stride, sz))
    idx, f = ex.arr_index(w, p.off, sz)
    base = w.arrs.get(f) or Arr(sz, ("zero",) if w.zero else ("unk", {}))
    w.arrs[f] = base.with_(("fill", idx, add(idx, n), v))

@pattern(r"std::__fill_a1<([^<>]*)\*, ([^<>]*)>\(")
def _fill_a1(ex, ctx, st, env, ins, name, a):
    m = re.search(r"std::__fill_a1<([^<>]*)\*, ([^<>]*)>\(", ex.funcs[name].dem)
    t = elem_ty(m.group(1))
    if t is None: return DEFER
    ty, sz = t
    f, l = a[0], a[1]
    n = divpoly(sub(l.off, f.off), sz, "f") if f.o == l.o else None
    if n is None: raise Unsupported("fill range")
    if ex.funcs[name].args[2][1] == "ptr" and ty != "ptr": v = ex.load(st, ctx, a[2], ty)
    elif ty == "ptr": v = ex.load(st, ctx, a[2], ty)
    else: v = ex.conv(a[2], ty)
    do_fill(ex, ctx, st, f, n, v, ty, sz)
    return None

@builtin("vf_fill2f_spec_")
def _vf_fill2_spec(ex, ctx, st, env, ins, name, a):
    """p[i+j*w] = f(i, j, params..) for a specification function f"""
    p, w, h, f = a[:4]; fname = f.o[1]; params = [x if T.isreal(x) else num(ex, st, x) for x in a[5:]]
    def val(s, i):
        r, q = split_index(ex, s, i, w)
        return spec_call(ex, ctx, s, None, None, fname, [r, q] + params)
    fill_layer(ex, ctx, st, p, mul(w, h), 4, val, "f32")
