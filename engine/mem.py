"""Memory model: objects with (object id, byte offset) pointers."""
from fractions import Fraction
from terms import *
import terms as T

class Ptr:
    __slots__ = ("o", "off")
    def __init__(self, o, off=0): self.o = o; self.off = off
    def __eq__(self, b): return isinstance(b, Ptr) and self.o == b.o and self.off == b.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return "Ptr(%s+%s)" % (self.o, self.off)
NULL = Ptr(0, 0)

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class Parts:
    """an integer made of adjacent pieces, low part first: [(bytes, value)]"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p

SIZES = {"f32": 4, "f64": 8, "ptr": 8, "f80": 16}
def tysize(t):
    if t in SIZES: return SIZES[t]
    if t[0] == "i": return (int(t[1:]) + 7) // 8
    raise Unsupported("size of " + t)

class Arr:
    """one array of an object: cells of `size` bytes at stride*i + field. layers newest last."""
    __slots__ = ("base", "layers", "kind", "size")
    def __init__(self, size, base, layers=(), kind=None): self.size = size; self.base = base; self.layers = layers; self.kind = kind
    def with_(self, layer): return Arr(self.size, self.base, self.layers + (layer,), self.kind)

class Obj:
    __slots__ = ("size", "cells", "arrs", "stride", "zero", "name", "freed", "const", "kind", "ver")
    def __init__(self, size, name, zero=False, kind="heap"):
        self.size = size; self.cells = {}; self.arrs = None; self.stride = None; self.zero = zero
        self.name = name; self.freed = False; self.const = False; self.kind = kind; self.ver = 0
    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size; o.cells = dict(self.cells); o.arrs = dict(self.arrs) if self.arrs is not None else None
        o.stride = self.stride; o.zero = self.zero; o.name = self.name; o.freed = self.freed; o.const = self.const; o.kind = self.kind
        o.ver = self.ver + 1
        return o

def zero_of(ty):
    if ty == "ptr": return NULL
    if ty in ("f32", "f64", "f80"): return Fraction(0)
    if ty == "i1": return False
    return 0
