"""Symbolic values.  Concrete values stay native Python objects."""
import z3
from .core import Unsupported, PathEnd, simp, zi, zb

CUR = [None]            # the current Path


def P():
    return CUR[0]


class SInt:
    __slots__ = ("t", "tz", "cls")

    def __init__(self, t, tz=0, cls=None):
        self.t, self.tz, self.cls = t, tz, cls

    def __repr__(self):
        return f"SInt({self.t})"


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SReal:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SReal({self.t})"


class SStr:
    """Opaque text identified by an integer term; equal ids <=> equal text."""
    __slots__ = ("t", "src")

    def __init__(self, t, src=None):
        self.t, self.src = t, src

    def __repr__(self):
        return f"SStr({self.t})"


class Opaque:
    """An unknown value of which only identity is known."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class Poison:
    """Variable whose value after an arbitrary number of iterations is unknown
    because it was not yet assigned at the loop head."""

    def __init__(self, key, name):
        self.key, self.name = key, name


_strids = {}
_strback = []


def str_id(s):
    if s not in _strids:
        _strids[s] = len(_strback)
        _strback.append(s)
    return _strids[s]


def str_term(v):
    if isinstance(v, SStr):
        return v.t
    return z3.IntVal(str_id(v))


def mkint(t, tz=0, cls=None):
    t = simp(t)
    if isinstance(t, bool):
        t = int(t)
    if isinstance(t, int):
        return t if cls is None else SInt(z3.IntVal(t), tz, cls)
    return SInt(t, tz, cls)


def mkbool(t):
    t = simp(t)
    return t if isinstance(t, bool) else SBool(t)


def it(v):
    """z3 (or python) integer term of an integer-like value"""
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an integer: {v!r}")


def is_intlike(v):
    return isinstance(v, (int, SInt, SBool))


# --- byte ropes ------------------------------------------------------------

class Atom:
    """An opaque byte string of symbolic length."""

    def __init__(self, name, length):
        self.name = name
        self.len = length
        self.fn = z3.Function(name + ".byte", z3.IntSort(), z3.IntSort())
        self.uf = z3.Function(name + ".uint", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.sf = z3.Function(name + ".sint", z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.cidf = z3.Function(name + ".cid", z3.IntSort(), z3.IntSort(), z3.IntSort())
        p = P()
        if p is not None:
            p.__dict__.setdefault("atoms", {})[name] = self

    def byte(self, i):
        i = simp(i)
        t = self.fn(zi(i))
        P().add(z3.And(t >= 0, t <= 255))
        return t

    def __repr__(self):
        return f"<{self.name}>"


class Seg:
    pass


class Lit(Seg):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bytes(b)

    @property
    def n(self):
        return len(self.b)

    def __repr__(self):
        return f"Lit({self.b!r})"


class Byt(Seg):
    __slots__ = ("t",)
    n = 1

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Byt({self.t})"


class Sub(Seg):
    __slots__ = ("a", "off", "n")

    def __init__(self, a, off, n):
        self.a, self.off, self.n = a, simp(off), simp(n)

    def __repr__(self):
        return f"Sub({self.a},{self.off},{self.n})"


class Rep(Seg):
    """n copies of one byte"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, simp(n)

    def __repr__(self):
        return f"Rep({self.v},{self.n})"


class Hdr(Seg):
    """BER header: tag and definite length of n body bytes."""
    __slots__ = ("tag", "blen", "n")

    def __init__(self, tag, blen):
        self.tag = tag
        self.blen = simp(blen)
        self.n = hdr_len(tag, self.blen)

    def __repr__(self):
        return f"Hdr({self.tag},{self.blen})"


LENLEN = z3.Function("ber.lenlen", z3.IntSort(), z3.IntSort())


def hdr_len(tag, blen):
    """length of the header: one tag byte and the length octets"""
    if isinstance(blen, int):
        if blen < 0x80:
            return 2
        return 2 + (blen.bit_length() + 7) // 8
    t = LENLEN(blen)
    p = P()
    p.add(z3.And(t >= 1, t <= 9))
    p.add((t == 1) == (blen < 0x80))
    for k in range(1, 5):
        p.add(z3.Implies(blen < 256 ** k, t <= k + 1))
    return simp(t + 1)


class EncSeg(Seg):
    """Encoding of an abstract object (by contract)."""
    __slots__ = ("obj", "n")

    def __init__(self, obj, n):
        self.obj, self.n = obj, simp(n)

    def __repr__(self):
        return f"Enc({self.obj})"


class RangeSeg(Seg):
    """Concatenation of f(src, k) for lo <= k < hi.

    fn(k) gives the list of cases [(cond, rope)] of element k.
    sz: z3 function, prefix sum of the sizes.
    """
    __slots__ = ("mp", "lo", "hi")

    def __init__(self, mp, lo, hi):
        self.mp, self.lo, self.hi = mp, simp(lo), simp(hi)

    @property
    def n(self):
        return self.mp.span(self.lo, self.hi)

    def __repr__(self):
        return f"Range({self.mp.name},{self.lo},{self.hi})"


class MapBytes:
    """Family of byte strings indexed by k (see RangeSeg)."""

    def __init__(self, name, cases, minlen):
        self.name = name
        self.cases = cases          # k -> [(cond, SBytes)]
        self.minlen = minlen
        self.pos = z3.Function(name + ".pos", z3.IntSort(), z3.IntSort())
        self.seen = set()

    def span(self, lo, hi):
        lo, hi = simp(lo), simp(hi)
        if not isinstance(lo, z3.ExprRef) and not isinstance(hi, z3.ExprRef) and lo == hi:
            return 0
        p = P()
        if getattr(self, "unit", False):
            return simp(zi(hi) - zi(lo))
        if getattr(self, "const", None) is not None:
            n = 0
            for s in self.const:
                n = n + s.n
            return simp((zi(hi) - zi(lo)) * zi(n))
        t = self.pos(zi(hi)) - self.pos(zi(lo))
        p.add(z3.Implies(zi(lo) <= zi(hi), t >= (zi(hi) - zi(lo)) * self.minlen))
        p.add(z3.Implies(zi(lo) == zi(hi), t == 0))
        return simp(t)


class SBytes:
    """Immutable symbolic byte string."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"SBytes{list(self.segs)}"


def rope(v):
    """segments of any bytes-like value"""
    if isinstance(v, SBytes):
        return v.segs
    if isinstance(v, (bytes, bytearray)):
        return (Lit(v),) if len(v) else ()
    if isinstance(v, ByteArr):
        return v.segs
    raise Unsupported(f"not bytes: {v!r}")


def mkbytes(segs):
    out = []
    for s in segs:
        if isinstance(s, Byt):
            t = simp(s.t)
            if isinstance(t, int):
                s = Lit(bytes([t]))
        n = s.n
        if isinstance(n, int) and n == 0:
            continue
        if isinstance(s, Rep) and isinstance(s.n, int) and isinstance(s.v, int) and s.n <= 4096:
            s = Lit(bytes([s.v]) * s.n)
        if out and isinstance(s, Lit) and isinstance(out[-1], Lit):
            out[-1] = Lit(out[-1].b + s.b)
        elif out and isinstance(s, Sub) and isinstance(out[-1], Sub) and s.a is out[-1].a \
                and same(simp(out[-1].off + out[-1].n), s.off):
            out[-1] = Sub(s.a, out[-1].off, out[-1].n + s.n)
        elif out and isinstance(s, RangeSeg) and isinstance(out[-1], RangeSeg) \
                and s.mp is out[-1].mp and same(out[-1].hi, s.lo):
            out[-1] = RangeSeg(s.mp, out[-1].lo, s.hi)
        else:
            out.append(s)
    if not out:
        return b""
    if len(out) == 1 and isinstance(out[0], Lit):
        return out[0].b
    return SBytes(out)


def same(a, b):
    """syntactic equality of terms"""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return False
    return a == b


def blen(v):
    """length term of a bytes-like value"""
    if isinstance(v, (bytes, bytearray)):
        return len(v)
    n = 0
    for s in rope(v):
        n = n + s.n
    return simp(n)


# --- containers --------------------------------------------------------------

class Heap:
    """base of mutable engine objects"""
    serial = 0


class Inst(Heap):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = {} if fields is None else fields

    def __repr__(self):
        return f"<{self.cls.__name__} {self.fields}>"


class AbsInst:
    """Arbitrary valid object of class cls, known only through contracts."""

    def __init__(self, cls, term, spec=None):
        self.cls = cls
        self.term = term            # z3 int term: identity of the value
        self.spec = spec

    def __repr__(self):
        return f"<abs {self.cls.__name__} {self.term}>"


class Seq:
    """Abstract sequence: at(k) gives element k (defined for 0 <= k < length)."""

    def __init__(self, name, at, length=None):
        self.name = name
        self._at = at
        self.length = length

    def at(self, k):
        p = P()
        k = simp(k)
        kid = k if isinstance(k, int) else ("t", k.get_id())
        key = (id(self), kid)
        cache = p.__dict__.setdefault("seqcache", {})
        if key not in cache:
            if not isinstance(k, int):
                p.ex.keep.append(k)
            cache[key] = self._at(k)
        return cache[key]

    def __repr__(self):
        return f"Seq({self.name})"


class Range:
    """Elements lo..hi-1 of a Seq inside a list/tuple."""
    __slots__ = ("src", "lo", "hi")

    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, simp(lo), simp(hi)

    @property
    def n(self):
        return simp(zi(self.hi) - zi(self.lo))

    def __repr__(self):
        return f"Range({self.src},{self.lo},{self.hi})"


class PList(Heap):
    """Mutable list; items are values or Range segments."""

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return f"PList{self.items}"


class PTuple:
    """Tuple containing Range segments."""

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"PTuple{self.items}"


def mktuple(items):
    items = norm_items(items)
    if any(isinstance(x, Range) for x in items):
        return PTuple(items)
    return tuple(items)


def norm_items(items):
    out = []
    for x in items:
        if isinstance(x, Range):
            n = x.n
            if isinstance(n, int):
                if n <= 0:
                    continue
                if isinstance(x.lo, int) and n <= 64:
                    out.extend(x.src.at(x.lo + k) for k in range(n))
                    continue
            if out and isinstance(out[-1], Range) and out[-1].src is x.src and same(out[-1].hi, x.lo):
                out[-1] = Range(x.src, out[-1].lo, x.hi)
                continue
        out.append(x)
    return out


def items_len(items):
    n = 0
    for x in items:
        n = n + (x.n if isinstance(x, Range) else 1)
    return simp(n)


class ByteArr(Heap):
    """bytearray"""

    def __init__(self, segs=()):
        self.segs = tuple(segs)

    def __repr__(self):
        return f"ByteArr{list(self.segs)}"


class PDict(Heap):
    """dict with possibly symbolic keys: ordered list of [key, value].

    base: None, or an object with lookup(interp, key) for unknown content.
    """

    def __init__(self, entries=(), base=None):
        self.entries = [list(e) for e in entries]
        self.base = base

    def __repr__(self):
        return f"PDict{self.entries}"


class PSet(Heap):
    def __init__(self, items=(), base=None):
        self.items = list(items)
        self.base = base

    def __repr__(self):
        return f"PSet{self.items}"


class SRange:
    """range() with symbolic bounds, step +1"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = simp(lo), simp(hi), step


class BoundMethod:
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self}>"


class Closure:
    """Function defined in interpreted code (lambda, nested def)."""

    def __init__(self, node, env, frame, defaults, kwdefaults, name):
        self.node, self.env, self.frame = node, env, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = name
        self.is_gen = False
        self.fields = {}


class SuperObj:
    def __init__(self, cls, obj, owner):
        self.cls, self.obj, self.owner = cls, obj, owner


class Builtin:
    """Engine-implemented callable."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class Cell:
    """variable environment node"""
    __slots__ = ("vars", "parent", "globals_")

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent


class WeakRef:
    def __init__(self, obj, alive=None, callback=None):
        self.obj = obj
        self.alive = alive          # None: strongly reachable for the whole harness
