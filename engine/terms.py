"""Terms of the verifier: integer/real polynomials over z3 atoms, with side facts and lemmas.

Integers are mathematical integers (the executor inserts the machine wrap where the IR operation has
one), floating point values are reals. Products of atoms are kept as opaque z3 constants ("monomials");
comparison creation registers the factoring lemmas that make index arithmetic linear. A second, precise
query defines the monomials as real products.
"""
from fractions import Fraction
from math import gcd
import z3

class Unsupported(Exception):
    """The code uses something outside the verifier's reach (not a verdict about the property)."""

DIRTY = []            # atoms / lemma keys that got facts, in order: see solver.Inc
class Facts(list):
    """the facts of an atom; remembers that it grew"""
    def __init__(self, i): list.__init__(self); self.i = i
    def append(self, x):
        if not self: undep(ATOMS[self.i].z) if self.i < len(ATOMS) else None
        list.append(self, x); DIRTY.append(("a", self.i))
    def __iadd__(self, xs):
        for x in xs: self.append(x)
        return self
def add_lemma(z, fs):
    i = z.get_id(); _keep.append(z)
    if i not in LEMMAS: undep(z)
    LEMMAS.setdefault(i, []).extend(fs); DIRTY.append(("l", i))
def undep(z):
    """z starts to carry facts: forget the dependency sets computed without it"""
    if z.get_id() in _depc: _depc.clear(); DIRTY.append(("x", 0))
class Atom:
    __slots__ = ("id", "z", "real", "facts", "lo", "hi", "b2i", "name")
    def __init__(self, id, z, real, name):
        self.id, self.z, self.real, self.name = id, z, real, name
        self.facts = Facts(id); self.lo = self.hi = None; self.b2i = None

ATOMS = []
_by_expr = {}          # z3 expr id -> Atom
_keep = []
_mono_z = {}           # (mono) -> z3 const
_mono_of_decl = {}     # z3 decl name -> mono
_decl_atom = {}        # z3 const expr id -> Atom (uninterpreted const)
LEMMAS = {}            # z3 expr id -> [z3 facts]
_fresh = [0]

def reset():
    ATOMS.clear(); _by_expr.clear(); _keep.clear(); _mono_z.clear(); _mono_of_decl.clear()
    _decl_atom.clear(); LEMMAS.clear(); DIRTY.clear(); _fresh[0] = 0; _p2z.clear(); _cmpc.clear(); _depc.clear(); _divc.clear()
    _invc.clear(); _unc.clear(); _msc.clear()

def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])

def atom_for(z, name=None):
    i = z.get_id()
    a = _by_expr.get(i)
    if a is None:
        a = Atom(len(ATOMS), z, z.sort() == z3.RealSort(), name or "e")
        ATOMS.append(a); _by_expr[i] = a; _keep.append(z)
    return a

def fresh_int(name="i", lo=None, hi=None):
    a = atom_for(z3.Int(fresh_name(name)), name)
    a.lo, a.hi = lo, hi
    if lo is not None: a.facts.append(a.z >= lo)
    if hi is not None: a.facts.append(a.z <= hi)
    return Poly({(a.id,): 1})

def fresh_real(name="r"):
    return Poly({(atom_for(z3.Real(fresh_name(name)), name).id,): Fraction(1)}, True)

def fresh_bool(name="b"):
    return z3.Bool(fresh_name(name))

class Poly:
    __slots__ = ("t", "real", "_key")
    def __init__(self, t, real=False):
        self.t = t; self.real = real; self._key = None
    def key(self):
        if self._key is None:
            self._key = (self.real, tuple(sorted(self.t.items())))
        return self._key
    def __eq__(self, o): return isinstance(o, Poly) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def const(self): return self.t.get((), 0)
    def __repr__(self): return "Poly(%s)" % z3.simplify(toz(self)).sexpr() if len(self.t) < 8 else "Poly(..%d)" % len(self.t)

def isnum(x): return isinstance(x, (int, Fraction)) and not isinstance(x, bool)

def mk(t, real):
    t = {m: c for m, c in t.items() if c != 0}
    if not t: return Fraction(0) if real else 0
    if len(t) == 1 and () in t:
        c = t[()]
        return Fraction(c) if real else int(c)
    return Poly(t, real)

def terms_of(x):
    if isinstance(x, Poly): return x.t
    return {(): x} if x != 0 else {}

def isreal(x): return isinstance(x, Fraction) or (isinstance(x, Poly) and x.real)

def add(a, b, sb=1):
    if not isinstance(a, Poly) and not isinstance(b, Poly): return a + sb * b
    real = isreal(a) or isreal(b)
    t = dict(terms_of(a))
    for m, c in terms_of(b).items(): t[m] = t.get(m, 0) + sb * c
    return mk(t, real)

def sub(a, b): return add(a, b, -1)
def neg(a): return scale(a, -1)
def scale(a, c):
    if not isinstance(a, Poly): return a * c
    return mk({m: k * c for m, k in a.t.items()}, a.real or isinstance(c, Fraction))

_sqrt_arg = {}   # atom id -> Poly argument of sqrt, for sqrt(p)*sqrt(p) -> p   (only when p>=0 is known valid)

def mul(a, b):
    if not isinstance(a, Poly): return scale(b, a) if isinstance(b, Poly) else a * b
    if not isinstance(b, Poly): return scale(a, b)
    real = a.real or b.real
    if len(a.t) * len(b.t) > 4000: raise Unsupported("polynomial too large")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            m = _cancel(m)
            t[m] = t.get(m, 0) + c1 * c2
    return mk(t, real)

_inv_pair = {}   # atom id of inv(single atom) -> atom id
def _cancel(m):
    return m

def toreal(a):
    if isinstance(a, Poly): return a if a.real else Poly({m: Fraction(c) for m, c in a.t.items()}, True)
    return Fraction(a)

def base_name(z):
    n = z.decl().name()
    return n.split("!")[0]
def mono_z(m):
    if len(m) == 1: return ATOMS[m[0]].z
    z = _mono_z.get(m)
    if z is None:
        real = any(ATOMS[i].real for i in m)
        if real:   # an uninterpreted product: equal factors give equal products
            fs = [ATOMS[i].z for i in sorted(m, key=lambda i: (base_name(ATOMS[i].z), i))]
            fs = [z3.ToReal(f) if f.sort() == z3.IntSort() else f for f in fs]
            z = z3.Function("prod%d" % len(fs), *([z3.RealSort()] * (len(fs) + 1)))(*fs)
        else: z = z3.Int("m" + "_".join(map(str, m)))
        _mono_z[m] = z; _mono_of_decl[z.get_id()] = m; _keep.append(z)
    return z

_p2z = {}
def zc(c, real):
    if real:
        c = Fraction(c)
        return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
    return z3.IntVal(int(c))

def toz(x):
    """z3 expression of an int/real value"""
    if isinstance(x, bool): raise Unsupported("bool as number")
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return zc(x, True)
    k = x.key()
    z = _p2z.get(k)
    if z is not None: return z
    ps = []
    for m, c in sorted(x.t.items()):
        if m == (): ps.append(zc(c, x.real)); continue
        mz = mono_z(m)
        if x.real and mz.sort() == z3.IntSort(): mz = z3.ToReal(mz)
        ps.append(mz if c == 1 else zc(c, x.real) * mz)
    z = ps[0] if len(ps) == 1 else z3.Sum(ps)
    _p2z[k] = z; _keep.append(z)
    return z

def fromz(z, name=None):
    """value of a z3 arithmetic expression (opaque atom)"""
    if z3.is_int_value(z): return z.as_long()
    if z3.is_rational_value(z): return Fraction(z.numerator_as_long(), z.denominator_as_long())
    a = atom_for(z, name)
    return Poly({(a.id,): Fraction(1) if a.real else 1}, a.real)

def bz(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b

def b_not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(r)
def b_or(*xs):
    return b_not(b_and(*[b_not(x) for x in xs]))
def b_imp(a, b): return b_or(b_not(a), b)
def b_xor(a, b):
    if isinstance(a, bool): return b_not(b) if a else b
    if isinstance(b, bool): return b_not(a) if b else a
    return z3.Xor(a, b)
def b_eq(a, b): return b_not(b_xor(a, b))
def b_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else b_not(c)
    if isinstance(a, bool): return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, bool): return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b): return a
    return z3.If(c, a, b)

def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isreal(a) != isreal(b): a, b = toreal(a), toreal(b)
    if (isnum(a) and isnum(b) and a == b) or (isinstance(a, Poly) and a == b): return a
    if z3.is_not(c): c, a, b = c.arg(0), b, a
    if a == 1 and b == 0 and not isreal(a): return b2i(c)
    if a == 0 and b == 1 and not isreal(a): return sub(1, b2i(c))
    # common part out of the ite
    d = sub(a, b)
    if isinstance(d, (int, Fraction)) and not isreal(d):
        return add(b, scale(b2i(c), d))
    p = fromz(z3.If(c, toz(a), toz(b)), "ite")
    at = ATOMS[list(p.t)[0][0]]
    if at.lo is None and not at.real:
        la, ha = bounds(a); lb, hb = bounds(b)
        if la is not None and lb is not None: at.lo = min(la, lb)
        if ha is not None and hb is not None: at.hi = max(ha, hb)
    return p

def ite_off(c, a, b):
    """offsets into an object: the common element size stays visible outside of the choice"""
    if isinstance(c, bool) or isreal(a) or isreal(b): return ite(c, a, b)
    ta = a.t if isinstance(a, Poly) else {(): a}; tb = b.t if isinstance(b, Poly) else {(): b}
    ca, cb = ta.get((), 0), tb.get((), 0); g = abs(ca - cb)
    for t in (ta, tb):
        for m, k in t.items():
            if m != ():
                if not isinstance(k, int): return ite(c, a, b)
                g = gcd(g, abs(k))
    if g <= 1 or not isinstance(ca, int) or not isinstance(cb, int): return ite(c, a, b)
    r = ca % g
    def part(x, g):
        x = add(x, -r)
        return Poly({m: v // g for m, v in x.t.items()}) if isinstance(x, Poly) else x // g
    return add(scale(ite(c, part(a, g), part(b, g)), g), r)

def b2i(b):
    if isinstance(b, bool): return 1 if b else 0
    p = fromz(z3.If(b, z3.IntVal(1), z3.IntVal(0)), "b2i")
    a = ATOMS[list(p.t)[0][0]]
    a.b2i = b; a.lo, a.hi = 0, 1
    return p

def as_bool(x):
    """If x is syntactically a 0/1 encoding of a Boolean (or its complement), that Boolean, else None"""
    if isinstance(x, int): return (x != 0) if x in (0, 1) else None
    if isinstance(x, Poly) and not x.real:
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and ATOMS[m[0]].b2i is not None: return ATOMS[m[0]].b2i
        if len(x.t) == 2 and x.t.get(()) == 1:
            for m, c in x.t.items():
                if m and c == -1 and len(m) == 1 and ATOMS[m[0]].b2i is not None: return b_not(ATOMS[m[0]].b2i)
    return None

def bounds(x):
    if isinstance(x, int): return x, x
    if not isinstance(x, Poly) or x.real: return None, None
    lo = hi = 0
    for m, c in x.t.items():
        if m == (): l = h = 1
        else:
            l = h = 1
            for i in m:
                a = ATOMS[i]
                if a.lo is None or a.hi is None:
                    if a.lo is not None and a.lo >= 0 and len(m) == 1: l2, h2 = a.lo, None
                    elif a.hi is not None and len(m) == 1: l2, h2 = None, a.hi
                    elif a.lo is not None and len(m) == 1: l2, h2 = a.lo, None
                    else: l2 = h2 = None
                else: l2, h2 = a.lo, a.hi
                if len(m) == 1: l, h = l2, h2
                elif l is None or h is None or l2 is None or h2 is None: l = h = None
                else:
                    c4 = (l * l2, l * h2, h * l2, h * h2); l, h = min(c4), max(c4)
        if c < 0: l, h = (None if h is None else h * c), (None if l is None else l * c)
        else: l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
    return lo, hi

_cmpc = {}
def cmp(pred, a, b):
    """pred in lt le gt ge eq ne over numbers"""
    if pred == "gt": return cmp("lt", b, a)
    if pred == "ge": return cmp("le", b, a)
    if pred == "ne": return b_not(cmp("eq", a, b))
    d = sub(a, b)
    if not isinstance(d, Poly):
        return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[pred]
    if not d.real:
        lo, hi = bounds(d)
        if pred == "lt":
            if hi is not None and hi < 0: return True
            if lo is not None and lo >= 0: return False
        elif pred == "le":
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
            bb = as_bool(d)
            if bb is not None: return b_not(bb)
        g = 0
        for m, c in d.t.items():
            if m != (): g = gcd(g, abs(c))
        if g > 1:
            c0 = d.t.get((), 0)
            t = {m: c // g for m, c in d.t.items() if m != ()}
            if c0 % g:
                if pred == "eq": return False
                # p*g + c0 < 0  <=>  p < -c0/g  <=> p <= ceil(-c0/g)-1
                k = -((c0) // g) if pred == "lt" else (-c0) // g   # p < k for lt : p <= floor? see below
                if pred == "lt":   # p < -c0/g, not integer -> p <= floor(-c0/g)
                    t[()] = -((-c0) // g); pred = "le"
                else:
                    t[()] = -((-c0) // g)
            else: t[()] = c0 // g
            d = mk(t, False)
            if not isinstance(d, Poly): return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[pred]
        if pred == "lt":   # integers: d < 0  <=>  d + 1 <= 0
            d = add(d, 1); pred = "le"
            if not isinstance(d, Poly): return d <= 0
    k = (d.key(), pred)
    z = _cmpc.get(k)
    if z is not None: return z
    # move negative terms to the right hand side for readability
    if pred == "eq":
        lead = sorted(d.t.items())[-1]
        if lead[1] < 0: d = neg(d)
    pos = {m: c for m, c in d.t.items() if c > 0}; ng = {m: -c for m, c in d.t.items() if c < 0}
    l, r = toz(mk(pos, d.real)), toz(mk(ng, d.real))
    z = {"lt": l < r, "le": l <= r, "eq": l == r}[pred]
    _cmpc[k] = z; _keep.append(z)
    if any(len(m) > 1 for m in d.t):
        lem = []
        seen = set()
        if not d.real:
            for m in list(d.t):
                if len(m) < 2: continue
                for w in set(m):
                    if w in seen: continue
                    seen.add(w); lem += factor_lemma(d, w)
            if 4 <= len(d.t) <= 12: lem += product_lemma(d)
        else:
            lem += real_lemmas(d)
        if lem: add_lemma(z, lem)
    return z

def coeff_of(d, w):
    c = {}
    for m, k in d.t.items():
        if w in m:
            l = list(m); l.remove(w)
            c[tuple(l)] = c.get(tuple(l), 0) + k
    return mk(c, d.real)

def factor_lemma(d, w):
    c = coeff_of(d, w)
    if not isinstance(c, Poly): return []
    W = Poly({(w,): 1}); prod = mul(c, W)
    if not isinstance(prod, Poly): return []
    cz, wz, pz = toz(c), ATOMS[w].z, toz(prod)
    out = [z3.Implies(z3.And(wz >= 0, cz >= 1), pz >= wz), z3.Implies(z3.And(wz >= 0, cz <= -1), pz <= -wz),
           z3.Implies(cz == 0, pz == 0),
           z3.Implies(z3.And(wz >= 0, cz >= 0), pz >= 0), z3.Implies(z3.And(wz >= 0, cz <= 0), pz <= 0)]
    return out

def product_lemma(d):
    """d = F*G + rest with both factors sums: the sign facts of the product"""
    ws = []
    for m in d.t:
        if len(m) == 2: ws += [w for w in m if w not in ws]
    for w in ws:
        F = coeff_of(d, w)
        if not isinstance(F, Poly) or len(F.t) < 2: continue
        g = {(w,): 1}
        for v in ws:
            if v == w: continue
            c = coeff_of(d, v)
            if isinstance(c, Poly) and c == F: g[(v,)] = 1
            elif isinstance(c, Poly) and c == neg(F): g[(v,)] = -1
        if len(g) < 2: continue
        G = mk(g, False); P = mul(F, G)
        if any(len(m) > 1 and d.t.get(m) != c for m, c in P.t.items()): continue
        fz, gz, pz = toz(F), toz(G), toz(P)
        return [z3.Implies(z3.And(fz >= 1, gz >= 1), z3.And(pz >= fz, pz >= gz)), z3.Implies(z3.Or(fz == 0, gz == 0), pz == 0),
                z3.Implies(z3.And(fz >= 0, gz >= 0), pz >= 0), z3.Implies(z3.And(fz >= 0, gz <= 0), pz <= 0), z3.Implies(z3.And(fz <= 0, gz >= 0), pz <= 0)]
    return []

def real_lemmas(d):
    """sign facts of the degree 2 monomials"""
    out = []
    for m in d.t:
        if len(m) < 2: continue
        out += mono_sign(m)
    return out

_msc = {}
def mono_sign(m):
    r = _msc.get(m)
    if r is None: r = _msc[m] = mono_sign_(m)
    return r
def mono_sign_(m):
    z = mono_z(m)
    if len(m) == 2 and m[0] == m[1]: return [z >= 0]
    if len(m) >= 2:
        a, b = ATOMS[m[0]].z, mono_z(m[1:])
        return [z3.Implies(z3.And(a >= 0, b >= 0), z >= 0), z3.Implies(z3.And(a <= 0, b <= 0), z >= 0),
                z3.Implies(z3.And(a >= 0, b <= 0), z <= 0), z3.Implies(z3.And(a <= 0, b >= 0), z <= 0),
                z3.Implies(z3.Or(a == 0, b == 0), z == 0)]
    return []

# --- division, floor, special functions ------------------------------------------------------------
_divc = {}
def divpoly(a, c, mode):
    """integer quotient; mode: 't' truncating (C), 'f' floor. c: int>0 or Poly"""
    if isinstance(a, int) and isinstance(c, int):
        if c == 0: raise Unsupported("division by zero")
        if mode == "f": return a // c
        q = abs(a) // abs(c)
        return q if (a < 0) == (c < 0) else -q
    if isinstance(c, int):
        if c == 1: return a
        if c == -1: return neg(a)
        if all(k % c == 0 for k in a.t.values()): return mk({m: k // c for m, k in a.t.items()}, False)
        if mode == "f" and c > 0:
            # split off the divisible part
            dv = {m: k // c for m, k in a.t.items() if k % c == 0}
            if dv and any(m != () for m in dv):
                rest = mk({m: k for m, k in a.t.items() if k % c}, False)
                return add(mk(dv, False), divpoly(rest, c, "f"))
            lo, hi = bounds(a)
            if lo is not None and hi is not None and lo // c == hi // c: return lo // c
        if mode == "t" and c > 0:
            lo, hi = bounds(a)
            if lo is not None and lo >= 0: return divpoly(a, c, "f")
    elif a == c: return 1
    k = (a if isinstance(a, int) else a.key(), c if isinstance(c, int) else c.key(), mode)
    q = _divc.get(k)
    if q is not None: return q
    q = fresh_int("quo")
    at = ATOMS[list(q.t)[0][0]]
    lo, hi = bounds(a)
    if isinstance(c, int) and c > 0:
        if lo is not None: at.lo = lo // c
        if hi is not None: at.hi = hi // c + (1 if mode == "t" else 0)
    elif lo is not None and hi is not None:
        b = max(abs(lo), abs(hi)); at.lo, at.hi = -b, b
    cq = mul(c, q); r = sub(a, cq)
    rz, az = toz(r), toz(a)
    cz = toz(c)
    if mode == "f":
        at.facts.append(z3.Implies(cz > 0, z3.And(rz >= 0, rz < cz)))
        at.facts.append(z3.Implies(cz < 0, z3.And(rz <= 0, rz > cz)))
    else:
        at.facts.append(z3.Implies(z3.And(cz > 0, az >= 0), z3.And(rz >= 0, rz < cz)))
        at.facts.append(z3.Implies(z3.And(cz > 0, az <= 0), z3.And(rz <= 0, rz > -cz)))
        at.facts.append(z3.Implies(z3.And(cz < 0, az >= 0), z3.And(rz >= 0, rz < -cz)))
        at.facts.append(z3.Implies(z3.And(cz < 0, az <= 0), z3.And(rz <= 0, rz > cz)))
    if at.lo is not None: at.facts.append(at.z >= at.lo)
    if at.hi is not None: at.facts.append(at.z <= at.hi)
    if isinstance(c, Poly):
        # q*c is nonlinear: range lemmas for the quotient itself
        qz = at.z
        cqz = toz(cq) if not isinstance(cq, int) else z3.IntVal(cq)
        if mode == "t":
            at.facts += [z3.Implies(z3.And(cz > 0, az >= 0), z3.And(qz >= 0, qz <= az)),
                         z3.Implies(z3.And(cz > 0, az >= 0, az < cz), qz == 0),
                         z3.Implies(z3.And(cz > 0, az <= 0, -az < cz), qz == 0),
                         z3.Implies(z3.And(cz > 0, az <= 0), z3.And(qz <= 0, qz >= az))]
        # c*q vs multiples of c: q >= 1 -> cq >= c etc.
        at.facts += [z3.Implies(z3.And(cz > 0, qz >= 1), cqz >= cz), z3.Implies(z3.And(cz > 0, qz <= -1), cqz <= -cz),
                     z3.Implies(qz == 0, cqz == 0), z3.Implies(qz == 1, cqz == cz), z3.Implies(qz == -1, cqz == -cz),
                     z3.Implies(z3.And(cz > 0, qz >= 2), cqz >= 2 * cz), z3.Implies(z3.And(cz > 0, qz <= -2), cqz <= -2 * cz)]
    _divc[k] = q
    return q

def modpoly(a, c, mode):
    return sub(a, mul(c, divpoly(a, c, mode)))

_invc = {}
def inv(x):
    if isinstance(x, Fraction): return 1 / x
    # normalise the leading coefficient
    lead = sorted(x.t.items())[-1][1]
    y = scale(x, Fraction(1) / lead)
    k = y.key()
    p = _invc.get(k)
    if p is None:
        yz = toz(y)
        p = fromz(z3.Function("fn_inv", z3.RealSort(), z3.RealSort())(yz), "inv")
        at = ATOMS[list(p.t)[0][0]]
        one = mul(y, p)
        at.facts += [z3.Implies(yz != 0, toz(one) == 1), z3.Implies(yz > 0, at.z > 0), z3.Implies(yz < 0, at.z < 0)]
        _invc[k] = p
    return scale(p, Fraction(1) / lead)

def rdiv(a, b):
    a, b = toreal(a), toreal(b)
    if isinstance(b, Fraction):
        if b == 0: raise Unsupported("float division by constant zero")
        return scale(a, 1 / b)
    if isinstance(a, Poly) and a == b: return Fraction(1) # only if nonzero: handled by caller's obligation
    return mul(a, inv(b))

_unc = {}
def unary(name, x, facts):
    """uninterpreted real function with facts(argz, valz)"""
    k = (name, x if isinstance(x, Fraction) else x.key())
    p = _unc.get(k)
    if p is None:
        f = z3.Function("fn_" + name, z3.RealSort(), z3.RealSort())
        p = fromz(f(toz(x)), name)
        at = ATOMS[list(p.t)[0][0]]
        at.facts += facts(toz(x), at.z)
        _unc[k] = p
    return p

def floor_(x):
    """floor of a real, as an integer value"""
    if isinstance(x, Fraction): return x.numerator // x.denominator
    ip = {m: c for m, c in x.t.items() if c.denominator == 1 and all(not ATOMS[i].real for i in m)}
    rest = mk({m: c for m, c in x.t.items() if m not in ip}, True)
    ipart = mk({m: int(c) for m, c in ip.items()}, False)
    if not isinstance(rest, Poly): return add(ipart, rest.numerator // rest.denominator)
    if all(all(not ATOMS[i].real for i in m) for m in rest.t):
        den = 1
        for c in rest.t.values(): den = den * c.denominator // gcd(den, c.denominator)
        num = mk({m: int(c * den) for m, c in rest.t.items()}, False)
        return add(ipart, divpoly(num, den, "f"))
    k = ("floor", rest.key())
    p = _unc.get(k)
    if p is None:
        p = fresh_int("floor"); at = ATOMS[list(p.t)[0][0]]
        rz = toz(rest)
        at.facts += [z3.ToReal(at.z) <= rz, rz < z3.ToReal(at.z) + 1]
        _unc[k] = p
    return add(ipart, p)

# --- dependency closure ------------------------------------------------------------------------------
_depc = {}
def deps(z):
    """(atom ids, mono consts, lemma expr ids) occurring in z"""
    i = z.get_id()
    r = _depc.get(i)
    if r is not None: return r
    _keep.append(z)
    at, mo, le = set(), set(), set()
    a = _by_expr.get(i)
    if a is not None and a.facts: at.add(a.id)
    m = _mono_of_decl.get(i)
    if m is not None: mo.add(m)
    if i in LEMMAS: le.add(i)
    for ch in z.children():
        r = deps(ch)
        at |= r[0]; mo |= r[1]; le |= r[2]
    r = (frozenset(at), frozenset(mo), frozenset(le))
    _depc[i] = r
    return r

EXTRA_FACTS = {}   # reserved

def closure(exprs, precise):
    """all side facts needed for exprs"""
    at, mo, le = set(), set(), set()
    facts = []
    todo = list(exprs)
    done_a, done_l, done_m = set(), set(), set()
    rounds = 0
    while todo and rounds < 12:
        rounds += 1
        na, nm, nl = set(), set(), set()
        for e in todo:
            r = deps(e)
            na |= r[0]; nm |= r[1]; nl |= r[2]
        todo = []
        for i in na - done_a:
            todo += ATOMS[i].facts
        done_a |= na
        for i in nl - done_l:
            todo += LEMMAS[i]
        done_l |= nl
        for m in nm - done_m:
            if precise:
                z = mono_z(m); pr = ATOMS[m[0]].z
                real = z.sort() == z3.RealSort()
                fs = [ATOMS[i].z for i in m]
                if real: fs = [z3.ToReal(f) if f.sort() == z3.IntSort() else f for f in fs]
                pr = fs[0]
                for f in fs[1:]: pr = pr * f
                todo.append(z == pr)
                # atoms inside the monomial matter too
            else:
                todo += mono_sign(m)
                # facts of constituent atoms (ranges)
                for i in m:
                    if i not in done_a:
                        done_a.add(i); todo += ATOMS[i].facts
        done_m |= nm
        facts += todo
    return facts
