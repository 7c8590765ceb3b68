"""Typed inputs: symbolic value, value from a solver model, random value.

raw values are Python literals (so that replay files are readable); build()
turns them into the value passed to the theorem.
"""
import z3
from .core import zi, simp
from .values import *


class NoModel(Exception):
    pass


INT, BOOL = z3.IntSort(), z3.BoolSort()


def const(name, idx, sort=INT):
    if not idx:
        return z3.Const(name, sort)
    return z3.Function(name, *([INT] * len(idx)), sort)(*[zi(i) for i in idx])


class Ev:
    """evaluation of named inputs in a solver model"""

    def __init__(self, model):
        self.m = model

    def term(self, t):
        if not isinstance(t, z3.ExprRef):
            return t
        v = self.m.eval(t, model_completion=True)
        v = simp(v)
        if isinstance(v, z3.ExprRef):
            raise NoModel(str(v))
        return v

    def int(self, name, idx=()):
        return self.term(const(name, idx))

    def bool(self, name, idx=()):
        return bool(self.term(const(name, idx, BOOL)))


class G:
    def build(self, raw):
        return raw

    def small(self, name, idx=()):
        return []


class Int(G):
    def __init__(self, lo=None, hi=None, edges=(), sample=None, burst=None):
        """sample: largest value tried when running under CPython (the proof has no such bound)"""
        self.lo, self.hi = lo, hi
        self.edges = tuple(edges)
        self.sample = sample
        self.burst = burst

    def sym(self, I, name, idx=()):
        t = const(name, idx)
        if self.lo is not None:
            I.p.add(t >= self.lo)
        if self.hi is not None:
            I.p.add(t <= self.hi)
        return mkint(t)

    def model(self, ev, name, idx=()):
        v = ev.int(name, idx)
        if self.sample is not None and v > self.sample:
            raise NoModel("size")
        return v

    def rand(self, rng, size):
        if self.sample is not None:
            if self.burst and rng.random() < 0.01:
                return rng.randint(self.sample, self.burst)
            return rng.randint(self.lo or 0, self.sample)
        lo = self.lo if self.lo is not None else -(1 << 70)
        hi = self.hi if self.hi is not None else 1 << 70
        r = rng.random()
        if r < 0.15:
            return rng.choice([lo, hi, min(hi, max(lo, 0))] + [e for e in self.edges if lo <= e <= hi])
        if r < 0.45:
            return min(hi, max(lo, rng.randint(-6, 12)))
        if r < 0.75:
            b = 1 << rng.randint(0, 66)
            v = b + rng.randint(-2, 2)
            if rng.random() < 0.4:
                v = -v
            if lo <= v <= hi:
                return v
        if hi - lo > 1 << 20 and r < 0.9:
            v = rng.getrandbits(rng.randint(1, 70))
            if lo <= v <= hi:
                return v
        return rng.randint(lo, hi)


    def small(self, name, idx=()):
        return [] if self.sample is None else [const(name, idx) <= self.sample]


class Bool(G):
    def sym(self, I, name, idx=()):
        return mkbool(const(name, idx, BOOL))

    def model(self, ev, name, idx=()):
        return ev.bool(name, idx)

    def rand(self, rng, size):
        return rng.random() < 0.5


class Choice(G):
    """one of finitely many concrete values (raw value: its position)"""

    def __init__(self, *values):
        self.values = values

    def sym(self, I, name, idx=()):
        if idx:
            t = const(name, idx)
            I.p.add(z3.And(t >= 0, t < len(self.values)))
            k = I.p.concretize(t, 0, len(self.values) - 1)
        else:
            t = const(name, idx)
            k = I.p.choose(len(self.values))
            I.p.add(t == k)
            I.p.picks.append(k)
        return self.values[k]

    def model(self, ev, name, idx=()):
        return ev.int(name, idx) % len(self.values)

    def rand(self, rng, size):
        return rng.randrange(len(self.values))

    def build(self, raw):
        return self.values[raw]


class Opt(G):
    """None or a value"""

    def __init__(self, g):
        self.g = g

    def sym(self, I, name, idx=()):
        if I.p.branch(const(name + ".none", idx, BOOL)):
            return None
        return self.g.sym(I, name, idx)

    def model(self, ev, name, idx=()):
        if ev.bool(name + ".none", idx):
            return None
        return self.g.model(ev, name, idx)

    def rand(self, rng, size):
        if rng.random() < 0.2:
            return None
        return self.g.rand(rng, size)

    def build(self, raw):
        return None if raw is None else self.g.build(raw)

    def small(self, name, idx=()):
        return self.g.small(name, idx)


MAXLEN = 2 ** 63 - 1


class Bytes(G):
    """any byte string; maxlen None means any length a Python object can have"""

    def __init__(self, minlen=0, maxlen=None, patterns=()):
        self.minlen, self.maxlen = minlen, maxlen
        self.patterns = patterns

    def sym(self, I, name, idx=()):
        p = I.p
        if self.minlen == self.maxlen:
            n = self.minlen
        else:
            n = const(name + ".len", idx)
            p.add(n >= self.minlen)
            p.add(n <= (MAXLEN if self.maxlen is None else self.maxlen))
        if idx:
            key = ",".join(str(simp(i)) for i in idx)
            a = Atom(f"{name}[{key}]", n)
        else:
            a = Atom(name, n)
        return mkbytes([Sub(a, 0, n)])

    def model(self, ev, name, idx=()):
        if self.minlen == self.maxlen:
            n = self.minlen
        else:
            n = ev.int(name + ".len", idx)
        if n > 70000:
            raise NoModel("length")
        nm = name
        if idx:
            raise NoModel("indexed bytes")
        f = z3.Function(nm + ".byte", INT, INT)
        return bytes(ev.term(f(z3.IntVal(k))) % 256 for k in range(n))

    def rand(self, rng, size):
        hi = self.maxlen if self.maxlen is not None else self.minlen + size
        hi = min(hi, max(self.minlen, size) + (300 if rng.random() < 0.05 else 0))
        n = rng.randint(self.minlen, max(self.minlen, hi))
        if self.patterns and rng.random() < 0.5:
            v = rng.choice(self.patterns)
            if self.minlen <= len(v) and (self.maxlen is None or len(v) <= self.maxlen):
                return v
        if rng.random() < 0.3:
            return bytes(rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, 0x30, 2, 4, 5, 6)) for _ in range(n))
        return rng.randbytes(n)

    def small(self, name, idx=()):
        if self.minlen == self.maxlen:
            return []
        return [const(name + ".len", idx) <= max(40, self.minlen)]


class Const(G):
    def __init__(self, v):
        self.v = v

    def sym(self, I, name, idx=()):
        return self.v

    def model(self, ev, name, idx=()):
        return None

    def rand(self, rng, size):
        return None

    def build(self, raw):
        return self.v


class Real(G):
    """a float, treated as a mathematical real"""

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sym(self, I, name, idx=()):
        t = const(name, idx, z3.RealSort())
        if self.lo is not None:
            I.p.add(t >= self.lo)
        if self.hi is not None:
            I.p.add(t <= self.hi)
        return SReal(t)

    def model(self, ev, name, idx=()):
        v = ev.m.eval(const(name, idx, z3.RealSort()), model_completion=True)
        try:
            f = v.as_fraction()
            if float(f) == f:
                return float(f)
        except Exception:
            pass
        raise NoModel(str(v))

    def rand(self, rng, size):
        # multiples of 1/64: sums and differences of these are exact
        lo = 0.0 if self.lo is None else float(self.lo)
        hi = 1e6 if self.hi is None else float(self.hi)
        r = rng.random()
        if r < 0.3:
            return min(hi, lo + float(rng.randint(0, 400)))
        v = int(rng.uniform(lo, min(hi, lo + 10 ** rng.randint(0, 7))) * 64) / 64.0
        return min(hi, max(lo, v))


class Text(G):
    """a text string, known only up to equality"""

    def __init__(self, pool=("", "a", "bb", "user", "x" * 33, "\u00e9t\u00e9"), plain=True):
        self.pool = pool

    def sym(self, I, name, idx=()):
        t = const(name, idx)
        I.p.add(t >= 0)
        return SStr(t)

    def model(self, ev, name, idx=()):
        v = ev.int(name, idx)
        from .values import _strback
        if 0 <= v < len(_strback):
            return _strback[v]
        return f"s{v}"

    def rand(self, rng, size):
        if rng.random() < 0.7:
            return rng.choice(self.pool)
        return "".join(rng.choice("abcxyz\u00e9\u4e2d ") for _ in range(rng.randint(0, size)))


class List(G):
    """tuple (or list) of any number of elements"""

    def __init__(self, g, minlen=0, maxlen=None, cls=tuple):
        self.g, self.minlen, self.maxlen, self.cls = g, minlen, maxlen, cls

    def sym(self, I, name, idx=()):
        p = I.p
        n = const(name + ".len", idx)
        p.add(n >= self.minlen)
        p.add(n <= (2 ** 60 if self.maxlen is None else self.maxlen))
        if self.maxlen is not None and self.maxlen <= 8:
            k = p.concretize(n, self.minlen, self.maxlen)
            items = [self.g.sym(I, f"{name}[{j}]", idx) for j in range(k)]
            return tuple(items) if self.cls is tuple else PList(items)
        src = Seq(name, lambda k: self.g.sym(I, name + "[]", tuple(idx) + (k,)))
        if self.cls is tuple:
            return mktuple([Range(src, 0, n)])
        return PList([Range(src, 0, n)])

    def model(self, ev, name, idx=()):
        n = ev.int(name + ".len", idx)
        if self.maxlen is not None and self.maxlen <= 8:
            return [self.g.model(ev, f"{name}[{j}]", idx) for j in range(n)]
        if n > 3000:
            raise NoModel("length")
        return [self.g.model(ev, name + "[]", tuple(idx) + (z3.IntVal(k),)) for k in range(n)]

    def rand(self, rng, size):
        hi = self.minlen + min(size, 8 if rng.random() < 0.8 else 40)
        if self.maxlen is not None:
            hi = min(hi, self.maxlen)
        return [self.g.rand(rng, size) for _ in range(rng.randint(self.minlen, max(hi, self.minlen)))]

    def build(self, raw):
        return self.cls(self.g.build(x) for x in raw)

    def small(self, name, idx=()):
        return [const(name + ".len", idx) <= max(6, self.minlen)]


class Tup(G):
    def __init__(self, *gs):
        self.gs = gs

    def sym(self, I, name, idx=()):
        return tuple(g.sym(I, f"{name}.{i}", idx) for i, g in enumerate(self.gs))

    def model(self, ev, name, idx=()):
        return [g.model(ev, f"{name}.{i}", idx) for i, g in enumerate(self.gs)]

    def rand(self, rng, size):
        return [g.rand(rng, size) for g in self.gs]

    def build(self, raw):
        return tuple(g.build(x) for g, x in zip(self.gs, raw))

    def small(self, name, idx=()):
        return [c for i, g in enumerate(self.gs) for c in g.small(f"{name}.{i}", idx)]


class Valid(G):
    """an arbitrary valid object of a class, known only through contracts (natively: make(value of g))"""

    def __init__(self, cls, g, make):
        self.cls, self.g, self.make = cls, g, make

    def sym(self, I, name, idx=()):
        return AbsInst(self.cls, const(name, idx))

    def model(self, ev, name, idx=()):
        import random
        return self.g.rand(random.Random(str(ev.int(name, idx))), 4)

    def rand(self, rng, size):
        return self.g.rand(rng, size)

    def build(self, raw):
        return self.make(self.g.build(raw))
