"""Models of builtins and of the methods of builtin types."""
import builtins
import enum
import functools
import itertools
import types
import typing
import weakref
import z3

from .core import Unsupported, simp, zi, zb
from .values import *
from . import bytesops as B
from .interp import (PyRaise, StopIter, PIter, RangeIter, FnIter, GenIter, ITERS, PSlice, is_native,
                     ModelObj, rope_norm)

BYTESLIKE = (bytes, bytearray, SBytes, ByteArr)


def sub_range(seg):
    """the bytes of a Sub segment as a Range of ints"""
    a, off = seg.a, seg.off
    key = ("bytes", id(a))
    cache = P().__dict__.setdefault("byteseqs", {})
    if key not in cache:
        s = Seq(a.name + ".bytes", lambda k: mkint(a.byte(k)))
        s.atom = a
        cache[key] = s
    return Range(cache[key], off, simp(zi(off) + zi(seg.n)))


def len_(I, v):
    if isinstance(v, BYTESLIKE):
        return mkint(blen(v))
    if isinstance(v, (PList, PTuple)):
        return mkint(items_len(v.items))
    if isinstance(v, PDict):
        if v.base is not None:
            return v.base.len(I, v)
        return len(v.entries)
    if isinstance(v, PSet):
        if v.base is not None:
            return v.base.len(I, v)
        return len(v.items)
    if isinstance(v, SRange):
        n = simp(zi(v.hi) - zi(v.lo))
        if I.p.branch(zi(n) >= 0):
            return mkint(n)
        return 0
    if isinstance(v, SStr):
        n = I.p.int("strlen", lo=0)
        return mkint(n)
    if isinstance(v, ModelObj):
        f = getattr(v, "len", None)
        if f:
            return f(I)
        I.raise_(TypeError, "object has no len()")
    if isinstance(v, Poison):
        raise Unsupported("len of poisoned value")
    cls = I.type_of(v)
    if I.is_user_class(cls) and not isinstance(v, tuple):
        m = I.lookup(cls, "__len__")
        if m is None:
            I.raise_(TypeError, f"object of type {cls.__name__!r} has no len()")
        n = I.call(I.bind(m, v, cls), [], {})
        if not is_intlike(n):
            I.raise_(TypeError, "'__len__' result is not an integer")
        if I.truth(I.compare("<", n, 0)):
            I.raise_(ValueError, "__len__() should return >= 0")
        return n
    if is_native(v) or isinstance(v, tuple):
        try:
            return len(v)
        except TypeError as e:
            raise I.wrap_exc(e)
    I.raise_(TypeError, f"object of type {cls.__name__!r} has no len()")


def isinstance_(I, v, t):
    if isinstance(t, (tuple,)):
        return any(isinstance_(I, v, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(isinstance_(I, v, x) for x in t.__args__)
    if isinstance(t, types.GenericAlias):
        I.raise_(TypeError, "isinstance() argument 2 cannot be a parameterized generic")
    cls = I.type_of(v)
    if isinstance(v, ModelObj) and hasattr(v, "isinstance"):
        return v.isinstance(t)
    if isinstance(v, AbsInst) and issubclass(t, cls) and t is not cls:
        raise Unsupported("type test on abstract value")
    try:
        return issubclass(cls, t)
    except TypeError as e:
        raise I.wrap_exc(e)


def issubclass_(I, c, t):
    try:
        return issubclass(c, t)
    except TypeError as e:
        raise I.wrap_exc(e)


def range_(I, *a):
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a
    for x in (lo, hi, step):
        if not is_intlike(x):
            I.raise_(TypeError, "object cannot be interpreted as an integer")
    lo, hi, step = it(lo), it(hi), it(step)
    if all(isinstance(x, int) for x in (lo, hi, step)):
        if step == 0:
            I.raise_(ValueError, "range() arg 3 must not be zero")
        return range(lo, hi, step)
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic range step")
    return SRange(lo, hi, step)


def iter_(I, v):
    r = I.iter(v)
    if r is v:
        return r
    if isinstance(v, (Inst,)):
        # keep user iterator objects as themselves
        m = I.lookup(v.cls, "__next__")
        if m is not None:
            return v
    return r


def next_(I, v, *default):
    if isinstance(v, (Inst, AbsInst)):
        m = I.lookup(v.cls, "__next__")
        if m is None:
            I.raise_(TypeError, f"{v.cls.__name__!r} object is not an iterator")
        try:
            return I.call(I.bind(m, v, v.cls), [], {})
        except PyRaise as e:
            if default and issubclass(e.exc.cls, StopIteration):
                return default[0]
            raise
    if not isinstance(v, ITERS):
        if isinstance(v, ModelObj) and hasattr(v, "next"):
            return v.next(I)
        I.raise_(TypeError, f"{I.type_of(v).__name__!r} object is not an iterator")
    try:
        return v.next(I)
    except StopIter:
        if default:
            return default[0]
        I.raise_(StopIteration)


def to_list(I, v=()):
    return PList(norm_items(I.items_of(v)))


def to_tuple(I, v=()):
    if isinstance(v, tuple) and type(v) is tuple:
        return v
    if isinstance(v, PTuple):
        return v
    return mktuple(I.items_of(v))


def to_dict(I, v=None, **kw):
    d = PDict()
    if v is not None:
        dict_update(I, d, v)
    for k, x in kw.items():
        dict_set(I, d, k, x)
    return d


def to_set(I, v=()):
    s = PSet()
    for x in I.items_of(v):
        if isinstance(x, Range):
            raise Unsupported("set of abstract sequence")
        set_add(I, s, x)
    return s


def items_to_segs(I, items):
    segs = []
    for x in items:
        if isinstance(x, Range):
            a = getattr(x.src, "atom", None)
            if a is None:
                segs.extend(int_range_segs(I, x))
                continue
            segs.append(Sub(a, x.lo, x.n))
            continue
        if not is_intlike(x):
            I.raise_(TypeError, "object cannot be interpreted as an integer")
        t = it(x)
        if isinstance(t, int):
            if not 0 <= t < 256:
                I.raise_(ValueError, "bytes must be in range(0, 256)")
            segs.append(Lit(bytes([t])))
            continue
        if not I.p.branch(z3.And(t >= 0, t < 256)):
            I.raise_(ValueError, "bytes must be in range(0, 256)")
        segs.append(Byt(t))
    return segs


def int_range_segs(I, rng):
    """bytes(...) of an abstract sequence of ints"""
    from . import loops
    p = I.p
    cache = p.__dict__.setdefault("compcache", {})
    key = ("ints", id(rng.src))
    if key in cache:
        kind, val = cache[key][0]
    else:
        box = []

        def probe():
            k = p.int("k")
            p.add(z3.And(k >= zi(rng.lo), k < zi(rng.hi)))
            v = rng.src.at(k)
            if not is_intlike(v):
                I.raise_(TypeError, "object cannot be interpreted as an integer")
            t = zi(it(v))
            box.append((k, t))
            return p.must(z3.And(t >= 0, t < 256))
        res = loops.nested(I, probe)
        if any(kind == "raise" for _, kind, _, _ in res):
            raise Unsupported("bytes of abstract sequence that may raise")
        if len(box) == 1 and res and box[0][1].num_args() == 1:
            k, t = box[0]
            name = t.decl().name()
            off = simp(t.arg(0) - k)
            if name.endswith(".byte") and name[:-5] in p.__dict__.get("atoms", {}) and \
                    not (isinstance(off, z3.ExprRef) and mentions(off, k)):
                a = p.atoms[name[:-5]]
                return [Sub(a, simp(zi(rng.lo) + off), rng.n)]
        if res and not all(v for _, _, v, _ in res):
            if p.branch(p.bool("badbyte")):
                k = p.int("k")
                p.add(z3.And(k >= zi(rng.lo), k < zi(rng.hi)))
                t = zi(it(rng.src.at(k)))
                p.add(z3.Or(t < 0, t > 255))
                I.raise_(ValueError, "bytes must be in range(0, 256)")

        def produce(k):
            t = zi(it(rng.src.at(k)))
            p.add(z3.And(t >= 0, t < 256))
            return [Byt(t)]
        mp = loops.new_map(I, "ints", produce, rng.lo, rng.hi)
        mp.minlen = 1
        mp.src = rng.src
        mp.intsrc = rng.src
        mp.unit = True
        kind, val = "map", mp
        cache[key] = ((kind, val), rng.src)
    return [RangeSeg(val, rng.lo, rng.hi)]


def mentions(t, k):
    if t.eq(k):
        return True
    return any(mentions(c, k) for c in t.children())


def reversed_segs(segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, Lit):
            out.append(Lit(s.b[::-1]))
        elif isinstance(s, (Byt, Rep)):
            out.append(s)
        else:
            return None
    return out


def bytes_(I, v=None, *rest):
    if v is None:
        return b""
    if isinstance(v, (SBytes, bytes)):
        return v
    if isinstance(v, (ByteArr, bytearray)):
        return mkbytes(rope(v))
    if isinstance(v, str) and rest:
        return v.encode(*rest)
    if is_intlike(v):
        n = it(v)
        if isinstance(n, int):
            if n < 0:
                I.raise_(ValueError, "negative count")
            return mkbytes([Rep(0, n)])
        if not I.p.branch(n >= 0):
            I.raise_(ValueError, "negative count")
        return mkbytes([Rep(0, n)])
    cls = I.type_of(v)
    if I.is_user_class(cls):
        m = I.lookup(cls, "__bytes__")
        if m is not None:
            return I.call(I.bind(m, v, cls), [], {})
    if isinstance(v, ModelObj) and hasattr(v, "bytes"):
        return v.bytes(I)
    if isinstance(v, SStr) or isinstance(v, str):
        I.raise_(TypeError, "string argument without an encoding")
    return mkbytes(items_to_segs(I, I.items_of(v)))


def bytearray_(I, v=None, *rest):
    if v is None:
        return ByteArr()
    return ByteArr(rope(bytes_(I, v, *rest)))


def int_(I, v=0, base=None):
    if base is None and is_intlike(v):
        if isinstance(v, SInt) and v.cls is None:
            return v
        return mkint(it(v))
    if isinstance(v, SReal):
        t = z3.ToInt(v.t)
        # truncation toward zero
        if I.p.branch(v.t >= 0):
            return mkint(t)
        return mkint(-z3.ToInt(-v.t))
    if is_native(v) and not I.is_user_class(type(v)):
        try:
            return int(v) if base is None else int(v, base)
        except Exception as e:
            raise I.wrap_exc(e)
    if isinstance(v, SStr):
        src = v.src
        if src is not None and src[0] == "dec":
            return src[1]
        if not I.p.branch(I.p.bool("isnum")):
            I.raise_(ValueError, "invalid literal for int()")
        return mkint(I.p.int("parsed"))
    if isinstance(v, BYTESLIKE):
        raise Unsupported("int of bytes")
    m = I.lookup(I.type_of(v), "__int__") or I.lookup(I.type_of(v), "__index__")
    if m is not None and I.is_user_class(I.type_of(v)):
        return I.call(I.bind(m, v, I.type_of(v)), [], {})
    I.raise_(TypeError, "int() argument must be a string, a bytes-like object or a real number")


def float_(I, v=0.0):
    from .arith import real
    if is_native(v):
        try:
            return float(v)
        except Exception as e:
            raise I.wrap_exc(e)
    return SReal(real(v))


def bool_(I, v=False):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(zi(v.t) != 0)
    return I.truth(v)


def str_(I, v="", *rest):
    if rest:
        if is_native(v):
            return I.native_call(str, [v] + list(rest), {})
        raise Unsupported("str(bytes, encoding)")
    if isinstance(v, SInt) and v.cls is None:
        s = SStr(DEC(zi(v.t)), ("dec", v))
        return s
    return I.text(v, "__str__")


DEC = z3.Function("dec", z3.IntSort(), z3.IntSort())


def minmax(I, op, args, key=None, default=None):
    if len(args) == 1:
        items = I.items_of(args[0])
        if any(isinstance(x, Range) for x in items):
            raise Unsupported("min/max of abstract sequence")
        if not items:
            if default is not None:
                return default
            I.raise_(ValueError, "empty sequence")
    else:
        items = list(args)
    best = items[0]
    bk = I.call(key, [best], {}) if key else best
    for x in items[1:]:
        xk = I.call(key, [x], {}) if key else x
        if not key and is_intlike(x) and is_intlike(best):
            a, b = zi(it(x)), zi(it(best))
            best = mkint(z3.If(a < b if op == "<" else a > b, a, b))
            bk = best
            continue
        if I.truth(I.compare(op, xk, bk)):
            best, bk = x, xk
    return best


def sum_(I, v, start=0):
    tot = start
    for x in I.items_of(v):
        if isinstance(x, Range):
            raise Unsupported("sum of abstract sequence")
        tot = I.binop("Add", tot, x)
    return tot


def any_all(I, v, want):
    from . import loops
    itr = I.iter(v)
    return loops.any_all(I, itr, want)


def divmod_(I, a, b):
    return (I.binop("FloorDiv", a, b), I.binop("Mod", a, b))


def zip_(I, *its):
    its = [I.iter(x) for x in its]

    def nx():
        return tuple(x.next(I) for x in its)
    return FnIter(nx, ("zip", its))


def map_(I, f, *its):
    its = [I.iter(x) for x in its]

    def nx():
        return I.call(f, [x.next(I) for x in its], {})
    return FnIter(nx, ("map", f, its))


def filter_(I, f, v):
    itr = I.iter(v)

    def nx():
        while True:
            x = itr.next(I)
            if I.truth(x if f is None else I.call(f, [x], {})):
                return x
    return FnIter(nx, ("filter", f, itr))


def enumerate_(I, v, start=0):
    itr = I.iter(v)
    st = [start]

    def nx():
        x = itr.next(I)
        k = st[0]
        st[0] = I.binop("Add", k, 1)
        return (k, x)
    return FnIter(nx, ("enumerate", itr, start))


def reversed_(I, v):
    if isinstance(v, (SBytes, ByteArr, bytes, bytearray)):
        segs = list(rope(v))
        out = reversed_segs(segs)
        if out is None:
            raise Unsupported("reversal of opaque bytes")
        return PIter(out, kind="bytes")
    if isinstance(v, range):
        return PIter(list(reversed(v)))
    items = I.items_of(v)
    if any(isinstance(x, Range) for x in items):
        raise Unsupported("reversal of abstract sequence")
    return PIter(items[::-1])


def sorted_(I, v, key=None, reverse=False):
    items = I.items_of(v)
    if any(isinstance(x, Range) for x in items):
        raise Unsupported("sort of abstract sequence")
    out = []
    for x in items:
        k = I.call(key, [x], {}) if key else x
        i = len(out)
        while i > 0 and I.truth(I.compare("<", k, out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    r = [x for _, x in out]
    return PList(r[::-1] if reverse else r)


HASH = {}


def hash_(I, v, identity=False):
    if isinstance(v, (PList, PDict, PSet, ByteArr, list, dict, set)):
        I.raise_(TypeError, "unhashable type")
    cls = I.type_of(v)
    if not identity and I.is_user_class(cls) and not isinstance(v, (type, int, tuple)):
        m = I.lookup(cls, "__hash__")
        if m is not None and isinstance(m, types.FunctionType):
            return I.call(m, [v], {})
        for c in cls.__mro__:
            if "__hash__" in c.__dict__:
                if c.__dict__["__hash__"] is None:
                    I.raise_(TypeError, f"unhashable type: {cls.__name__!r}")
                break
        identity = True
    if identity:
        t = I.p.int("idhash")
        return mkint(t)
    H = hash_fn("h1")
    if isinstance(v, (tuple, PTuple)):
        h = z3.IntVal(7)
        H2 = hash_fn2("htup")
        for x in I.items_of(v):
            if isinstance(x, Range):
                R = hash_fn3("hrange")
                for equal, u, v in \
                        [r for r in I.p.__dict__.get("seqrel", {}).values() if len(r) == 3]:
                    # known equal to another sequence: hash that one
                    if equal and x.src is v.src and I.p.must(z3.And(zi(x.lo) == zi(v.lo), zi(x.hi) == zi(v.hi))):
                        x = u
                h = R(h, z3.IntVal(id(x.src)), zi(x.lo), zi(x.hi) - zi(x.lo))
                continue
            h = H2(h, zi(it(hash_(I, x))))
        return mkint(H(h))
    if isinstance(v, (int, SInt, SBool)):
        return mkint(H(zi(it(v))))
    if isinstance(v, (str, SStr)):
        return mkint(hash_fn("hs")(str_term(v)))
    return mkint(I.p.int("hash"))


def hash_fn(n):
    return z3.Function(n, z3.IntSort(), z3.IntSort())


def hash_fn2(n):
    return z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort())


def hash_fn3(n):
    return z3.Function(n, *([z3.IntSort()] * 5))


def type_(I, *a):
    if len(a) == 1:
        return I.type_of(a[0])
    raise Unsupported("dynamic class")


def getattr_(I, o, n, *d):
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    try:
        v = I.getattr_opt(o, n)
    except PyRaise as e:
        if d and issubclass(e.exc.cls, AttributeError):
            return d[0]
        raise
    if v is UNBOUND:
        if d:
            return d[0]
        I.raise_(AttributeError, n)
    return v


def hasattr_(I, o, n):
    try:
        return I.getattr_opt(o, n) is not UNBOUND
    except PyRaise as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


def callable_(I, v):
    if isinstance(v, (BoundMethod, Closure, Builtin, types.FunctionType, type, types.BuiltinFunctionType)):
        return True
    if isinstance(v, Inst):
        return I.lookup(v.cls, "__call__") is not None
    return callable(v)


def abs_(I, v):
    if isinstance(v, SInt):
        return mkint(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, SReal):
        return SReal(z3.If(v.t >= 0, v.t, -v.t))
    return I.native_call(abs, [v], {})


def repr_(I, v):
    return I.text(v, "__repr__")


def super_(I, cls=None, obj=None):
    return SuperObj(cls, obj, None)


def id_(I, v):
    return mkint(z3.IntVal(id(v)))


def round_(I, v, *a):
    if is_native(v):
        return I.native_call(round, [v] + list(a), {})
    raise Unsupported("round")


def reduce_(I, f, v, *init):
    items = I.items_of(v)
    if any(isinstance(x, Range) for x in items):
        raise Unsupported("reduce of abstract sequence")
    if init:
        acc = init[0]
    else:
        if not items:
            I.raise_(TypeError, "reduce() of empty iterable")
        acc = items.pop(0)
    for x in items:
        acc = I.call(f, [acc, x], {})
    return acc


def partial_(I, f, *args, **kw):
    return Builtin("partial", lambda *a, **k: I.call(f, list(args) + list(a), {**kw, **k}))


def chain_(I, *its):
    items = []
    for x in its:
        items += I.items_of(x)
    return PIter(items)


def weakref_(I, obj, callback=None):
    f = I.cfg.weakref
    if f is not None:
        return f(I, obj, callback)
    return WeakRef(obj)


def slice_ctor(I, *a):
    if len(a) == 1:
        a = (None, a[0])
    return PSlice(*a)


class Any_:
    pass


TABLE = {
    len: len_, isinstance: isinstance_, issubclass: issubclass_, range: range_, iter: iter_,
    next: next_, list: to_list, tuple: to_tuple, dict: to_dict, set: to_set, frozenset: to_set,
    bytes: bytes_, bytearray: bytearray_, memoryview: bytes_,
    int: int_, float: float_, bool: bool_, str: str_,
    min: lambda I, *a, key=None, default=None: minmax(I, "<", a, key, default),
    max: lambda I, *a, key=None, default=None: minmax(I, ">", a, key, default),
    sum: sum_, any: lambda I, v: any_all(I, v, True), all: lambda I, v: any_all(I, v, False),
    divmod: divmod_, zip: zip_, map: map_, filter: filter_, enumerate: enumerate_,
    reversed: reversed_, sorted: sorted_, hash: lambda I, v: hash_(I, v), type: type_,
    getattr: getattr_, hasattr: hasattr_, setattr: lambda I, o, n, v: I.setattr(o, n, v),
    callable: callable_, abs: abs_, repr: repr_, super: super_, id: id_, round: round_,
    functools.reduce: reduce_, functools.partial: partial_, itertools.chain: chain_,
    typing.cast: lambda I, t, v: v, weakref.ref: weakref_,
    print: lambda I, *a, **k: None,
    pow: lambda I, a, b: I.binop("Pow", a, b),
    object: lambda I: Inst(object), slice: slice_ctor,
}


def function(I, f):
    try:
        h = I.cfg.models.get(f)
        if h is not None:
            return functools.partial(h, I)
        h = TABLE.get(f)
        if h is not None:
            return functools.partial(h, I)
    except TypeError:
        pass
    # bound builtin methods of native objects: b"".join, str.format ...
    if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)) and \
            not isinstance(getattr(f, "__self__", None), (types.ModuleType, type, type(None))):
        o = f.__self__
        if isinstance(o, (str, bytes, tuple, dict, list, int, set, frozenset)):
            m = method(I, o, f.__name__)
            if isinstance(m, Builtin):
                return m.fn
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        def unbound(o, *a, **k):
            return I.call(method(I, o, f.__name__), list(a), k)
        return unbound
    return None


def constructor(I, cls):
    h = TABLE.get(cls)
    if h is not None:
        return functools.partial(h, I)
    return None


def class_method(I, cls, name):
    if isinstance(cls, type) and issubclass(cls, int) and name == "from_bytes":
        return Builtin("int.from_bytes", lambda data, byteorder="big", *, signed=False:
                       int_from_bytes(I, data, byteorder, signed))
    if cls is bytes and name == "fromhex":
        return Builtin("fromhex", lambda s: I.native_call(bytes.fromhex, [s], {}))
    if cls is dict and name == "fromkeys":
        def fk(keys, v=None):
            d = PDict()
            for k in I.items_of(keys):
                dict_set(I, d, k, v)
            return d
        return Builtin("fromkeys", fk)
    if cls is itertools.chain and name == "from_iterable":
        return Builtin("from_iterable", lambda x: chain_(I, *I.items_of(x)))
    if name == "__new__":
        return Builtin("__new__", lambda c, *a, **k: Inst(c))
    if name == "__init__" and issubclass(cls, BaseException) and not I.is_user_class(cls):
        return Builtin("__init__", lambda o, *a, **k: I.builtin_init(cls, o, a, k))
    return None


def int_from_bytes(I, data, order, signed):
    if isinstance(signed, SBool):
        signed = I.truth(signed)
    if isinstance(data, (bytes, bytearray)):
        return int.from_bytes(data, order, signed=signed)
    if not isinstance(data, BYTESLIKE):
        data = bytes_(I, data)
        if isinstance(data, bytes):
            return int.from_bytes(data, order, signed=signed)
    return B.from_bytes(data, order, bool(signed))


# ---------------------------------------------------------------------------
# subscripts

def clamp_slice(I, n, k):
    """normalised (lo, hi) of a step-1 slice of a sequence of length n"""
    p = I.p

    def norm(x, default):
        if x is None:
            return default
        if not is_intlike(x):
            m = I.lookup(I.type_of(x), "__index__") if I.is_user_class(I.type_of(x)) else None
            if m is None:
                I.raise_(TypeError, "slice indices must be integers or None")
            x = I.call(I.bind(m, x, I.type_of(x)), [], {})
        t = it(x)
        if isinstance(t, int) and isinstance(n, int):
            if t < 0:
                t += n
            return max(0, min(n, t))
        if isinstance(t, int) and t == 0:
            return 0
        if p.branch(zi(t) < 0):
            t = simp(zi(t) + zi(n))
            if p.branch(zi(t) < 0):
                return 0
            return t
        if same(t, n):
            return t
        if p.branch(zi(t) > zi(n)):
            return n
        return t
    step = k.step
    if step is not None and not (isinstance(step, int) and step == 1):
        return None
    lo = norm(k.start, 0)
    hi = norm(k.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    if isinstance(lo, int) and lo == 0:
        return lo, hi
    if same(hi, n):
        return lo, hi
    if not p.branch(zi(lo) <= zi(hi)):
        return lo, lo
    return lo, hi


def norm_index(I, n, k, what):
    p = I.p
    t = it(k)
    if isinstance(t, int) and isinstance(n, int):
        if t < 0:
            t += n
        if not 0 <= t < n:
            I.raise_(IndexError, f"{what} index out of range")
        return t
    if isinstance(t, int):
        if t < 0:
            t = simp(zi(n) + t)
            if not p.branch(zi(t) >= 0):
                I.raise_(IndexError, f"{what} index out of range")
            return t
        if not p.branch(zi(n) > t):
            I.raise_(IndexError, f"{what} index out of range")
        return t
    if p.branch(t < 0):
        t = simp(t + zi(n))
        if not p.branch(zi(t) >= 0):
            I.raise_(IndexError, f"{what} index out of range")
        return t
    if not p.branch(zi(t) < zi(n)):
        I.raise_(IndexError, f"{what} index out of range")
    return t


def is_sl(k):
    return isinstance(k, (PSlice, slice))


def getitem(I, o, k):
    p = I.p
    if isinstance(o, Poison) or isinstance(k, Poison):
        raise Unsupported("poisoned subscript")
    if isinstance(o, BYTESLIKE):
        n = blen(o)
        if is_sl(k):
            if isinstance(o, (bytes, bytearray)) and all(
                    x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return I.native_call(lambda: o[slice(k.start, k.stop, k.step)], [], {})
            r = clamp_slice(I, n, k)
            if r is None:
                return strided(I, o, k)
            v = B.slice_(o, *r)
            if isinstance(o, (ByteArr, bytearray)):
                return ByteArr(rope(v))
            return v
        if not is_intlike(k):
            I.raise_(TypeError, "byte indices must be integers or slices")
        i = norm_index(I, n, k, "index")
        return B.index(o, i)
    if isinstance(o, (tuple, list, PList, PTuple)):
        items = I.items_of(o)
        if is_sl(k):
            n = items_len(items)
            if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)) \
                    and not any(isinstance(x, Range) for x in items):
                r = items[slice(k.start, k.stop, k.step)]
            else:
                c = clamp_slice(I, n, k)
                if c is None:
                    raise Unsupported("strided slice of abstract sequence")
                r = slice_items(I, items, *c)
            if isinstance(o, (tuple, PTuple)):
                return mktuple(r)
            return PList(r)
        if not is_intlike(k):
            I.raise_(TypeError, "indices must be integers or slices")
        n = items_len(items)
        i = norm_index(I, n, k, "sequence")
        return item_at(I, items, i)
    if isinstance(o, (PDict, dict)):
        return dict_get(I, o, k)
    if isinstance(o, SRange):
        if is_intlike(k):
            n = len_(I, o)
            i = norm_index(I, it(n), k, "range")
            return mkint(zi(o.lo) + zi(i))
        raise Unsupported("slice of symbolic range")
    if isinstance(o, ModelObj):
        f = getattr(o, "getitem", None)
        if f:
            return f(I, k)
        I.raise_(TypeError, "object is not subscriptable")
    if isinstance(o, type):
        if is_native(k):
            try:
                return o[k]
            except TypeError as e:
                raise I.wrap_exc(e)
            except KeyError as e:
                raise I.wrap_exc(e)
        if issubclass(o, enum.Enum) and isinstance(k, SStr):
            raise Unsupported("enum by symbolic name")
        return o
    cls = I.type_of(o)
    if I.is_user_class(cls):
        m = I.lookup(cls, "__getitem__")
        if m is None:
            I.raise_(TypeError, f"{cls.__name__!r} object is not subscriptable")
        if isinstance(k, slice):
            k = PSlice(k.start, k.stop, k.step)
        return I.call(I.bind(m, o, cls), [k], {})
    if isinstance(o, (int, SInt, SBool, type(None), float)):
        I.raise_(TypeError, f"{cls.__name__!r} object is not subscriptable")
    if is_native(o):
        if isinstance(k, PSlice):
            k = slice(k.start, k.stop, k.step)
        if is_native(k):
            return I.native_call(lambda: o[k], [], {})
    raise Unsupported(f"subscript of {o!r}")


def strided(I, o, k):
    n = blen(o)
    if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
        items = I.items_of(o)
        return mkbytes(items_to_segs(I, items[slice(k.start, k.stop, k.step)]))
    raise Unsupported("strided slice")


def split_items(I, items, x):
    """cut an item list at position x (0 <= x <= len known)"""
    p = I.p
    left = []
    pos = 0
    items = list(items)
    i = 0
    while i < len(items):
        e = items[i]
        n = e.n if isinstance(e, Range) else 1
        rel = simp(zi(x) - zi(pos))
        if isinstance(rel, int) and rel <= 0:
            return left, items[i:]
        if isinstance(rel, int) and isinstance(n, int):
            inside = rel < n
        elif i == len(items) - 1 and isinstance(e, Range):
            inside = True
        else:
            if p.branch(zi(rel) <= 0):
                return left, items[i:]
            inside = not p.branch(zi(rel) >= zi(n))
        if not inside:
            left.append(e)
            pos = simp(zi(pos) + zi(n))
            i += 1
            continue
        m = simp(zi(e.lo) + zi(rel))
        return left + [Range(e.src, e.lo, m)], [Range(e.src, m, e.hi)] + items[i + 1:]
    return left, []


def slice_items(I, items, lo, hi):
    a, _ = split_items(I, items, hi)
    _, b = split_items(I, a, lo)
    return norm_items(b)


def item_at(I, items, i):
    p = I.p
    i = simp(i)
    if isinstance(i, int) and not any(isinstance(x, Range) for x in items[:i + 1]):
        return items[i]
    pos = 0
    for x in items:
        n = x.n if isinstance(x, Range) else 1
        rel = simp(zi(i) - zi(pos))
        if isinstance(rel, int) and isinstance(n, int):
            hit = rel < n
        else:
            hit = p.branch(zi(rel) < zi(n))
        if hit:
            if isinstance(x, Range):
                return x.src.at(simp(zi(x.lo) + zi(rel)))
            return x
        pos = simp(zi(pos) + zi(n))
    raise Unsupported("item position")


def setitem(I, o, k, v):
    if isinstance(o, PDict):
        return dict_set(I, o, k, v)
    if isinstance(o, PList):
        if is_sl(k):
            if any(isinstance(x, Range) for x in o.items):
                raise Unsupported("slice assignment")
            I.write(o, "items")
            o.items[slice(k.start, k.stop, k.step)] = I.items_of(v)
            return
        i = norm_index(I, items_len(o.items), k, "list assignment")
        if not isinstance(i, int) or any(isinstance(x, Range) for x in o.items[:i + 1]):
            if isinstance(i, int):
                a, b = split_items(I, o.items, i)
                _, c = split_items(I, o.items, i + 1)
                I.write(o, "items")
                o.items = norm_items(a + [v] + c)
                return
            if not any(isinstance(x, Range) for x in o.items):
                i = I.p.concretize(i, 0, len(o.items) - 1, "list index")
            else:
                raise Unsupported("list store")
        I.write(o, "items")
        o.items[i] = v
        return
    if isinstance(o, ByteArr):
        n = blen(o)
        if is_sl(k):
            r = clamp_slice(I, n, k)
            if r is None:
                raise Unsupported("strided store")
            a = B.slice_(o, 0, r[0])
            c = B.slice_(o, r[1], n)
            I.write(o, "segs")
            o.segs = rope_norm(tuple(rope(a)) + tuple(rope(bytes_(I, v))) + tuple(rope(c)))
            return
        i = norm_index(I, n, k, "bytearray")
        a = B.slice_(o, 0, i)
        c = B.slice_(o, simp(zi(i) + 1), n)
        seg = items_to_segs(I, [v])
        I.write(o, "segs")
        o.segs = rope_norm(tuple(rope(a)) + tuple(seg) + tuple(rope(c)))
        return
    if isinstance(o, ModelObj) and hasattr(o, "setitem"):
        return o.setitem(I, k, v)
    cls = I.type_of(o)
    if I.is_user_class(cls):
        m = I.lookup(cls, "__setitem__")
        if m is not None:
            return I.call(I.bind(m, o, cls), [k, v], {})
    if isinstance(o, (tuple, PTuple, bytes, SBytes, str, SStr, int, SInt)) or o is None or isinstance(o, Inst):
        I.raise_(TypeError, f"{cls.__name__!r} object does not support item assignment")
    raise Unsupported(f"item assignment on {o!r}")


def delitem(I, o, k):
    if isinstance(o, PDict):
        i = dict_find(I, o, k)
        if i is None:
            if o.base is not None and o.base.delete(I, o, k):
                return
            I.raise_(KeyError, k)
        I.write(o, "entries")
        del o.entries[i]
        if o.base is not None:
            o.base.removed(I, o, k)
        return
    if isinstance(o, PList):
        if is_sl(k):
            if any(isinstance(x, Range) for x in o.items):
                raise Unsupported("slice deletion")
            I.write(o, "items")
            del o.items[slice(k.start, k.stop, k.step)]
            return
        i = norm_index(I, items_len(o.items), k, "list")
        a, b = split_items(I, o.items, i)
        if b and isinstance(b[0], Range):
            raise Unsupported("list deletion")
        I.write(o, "items")
        o.items = a + b[1:]
        return
    if isinstance(o, ByteArr):
        n = blen(o)
        if is_sl(k):
            r = clamp_slice(I, n, k)
        else:
            i = norm_index(I, n, k, "bytearray")
            r = (i, simp(zi(i) + 1))
        a = B.slice_(o, 0, r[0])
        c = B.slice_(o, r[1], n)
        I.write(o, "segs")
        o.segs = rope_norm(tuple(rope(a)) + tuple(rope(c)))
        return
    if isinstance(o, ModelObj) and hasattr(o, "delitem"):
        return o.delitem(I, k)
    cls = I.type_of(o)
    if I.is_user_class(cls):
        m = I.lookup(cls, "__delitem__")
        if m is not None:
            return I.call(I.bind(m, o, cls), [k], {})
    raise Unsupported(f"deletion on {o!r}")


# ---------------------------------------------------------------------------
# dicts and sets

def key_check(I, k):
    if isinstance(k, (PList, PDict, PSet, ByteArr, list, dict, set, bytearray)):
        I.raise_(TypeError, "unhashable type")
    cls = I.type_of(k)
    if I.is_user_class(cls) and not isinstance(k, (type, int, tuple)):
        for c in cls.__mro__:
            if "__hash__" in c.__dict__:
                if c.__dict__["__hash__"] is None:
                    I.raise_(TypeError, f"unhashable type: {cls.__name__!r}")
                break


def dict_find(I, d, k):
    """index of the entry equal to k on this path, or None"""
    key_check(I, k)
    for i, (kk, _) in enumerate(d.entries):
        if kk is k or I.truth(I.eq(kk, k)):
            return i
    return None


MISSING = object()


def dict_lookup(I, d, k):
    if isinstance(d, dict):
        key_check(I, k)
        if is_native(k) and not I.is_user_class(type(k)):
            try:
                return d.get(k, MISSING)
            except TypeError as e:
                raise I.wrap_exc(e)
        for kk, v in d.items():
            if kk is k or I.truth(I.eq(kk, k)):
                return v
        return MISSING
    i = dict_find(I, d, k)
    if i is not None:
        return d.entries[i][1]
    if d.base is not None:
        return d.base.lookup(I, d, k)
    return MISSING


def dict_get(I, d, k):
    v = dict_lookup(I, d, k)
    if v is MISSING:
        df = getattr(d, "default_factory", None)
        if df is not None:
            v = I.call(df, [], {})
            dict_set(I, d, k, v)
            return v
        I.raise_(KeyError, k)
    return v


def dict_set(I, d, k, v):
    if isinstance(d, dict):
        raise Unsupported("store into a module-level dict")
    i = dict_find(I, d, k)
    I.write(d, "entries")
    if i is not None:
        d.entries[i] = [d.entries[i][0], v]
    else:
        if d.base is not None:
            d.base.stored(I, d, k)
        d.entries.append([k, v])


def dict_update(I, d, other):
    if isinstance(other, dict):
        for k, v in other.items():
            dict_set(I, d, k, v)
    elif isinstance(other, PDict):
        if other.base is not None:
            raise Unsupported("update from unknown dict")
        for k, v in other.entries:
            dict_set(I, d, k, v)
    else:
        for x in I.items_of(other):
            if isinstance(x, Range):
                raise Unsupported("update from abstract sequence")
            k, v = I.unpack(x, 2)
            dict_set(I, d, k, v)


def set_find(I, s, k):
    key_check(I, k)
    for i, kk in enumerate(s.items):
        if kk is k or I.truth(I.eq(kk, k)):
            return i
    return None


def set_add(I, s, k):
    if set_find(I, s, k) is None:
        if s.base is not None and s.base.has(I, s, k):
            return
        I.write(s, "items")
        s.items.append(k)


def set_update(I, s, other):
    for x in I.items_of(other):
        set_add(I, s, x)


def set_op(I, op, a, b):
    if isinstance(a, (set, frozenset)):
        a = PSet(a)
    if isinstance(b, (set, frozenset)):
        b = PSet(b)
    if a.base is not None or b.base is not None:
        raise Unsupported("set operation")
    r = PSet()
    if op == "BitOr":
        for x in a.items + b.items:
            set_add(I, r, x)
    elif op == "BitAnd":
        for x in a.items:
            if set_find(I, b, x) is not None:
                r.items.append(x)
    elif op == "Sub":
        for x in a.items:
            if set_find(I, b, x) is None:
                r.items.append(x)
    else:
        raise Unsupported("set operation")
    return r


def set_eq(I, a, b):
    if a.base is not None or b.base is not None:
        raise Unsupported("set equality")
    if len(a.items) != len(b.items):
        return False
    return all(set_find(I, b, x) is not None for x in a.items)


def contains(I, c, x):
    p = I.p
    if isinstance(c, (PDict, dict)):
        return dict_lookup(I, c, x) is not MISSING
    if isinstance(c, PSet):
        if set_find(I, c, x) is not None:
            return True
        return c.base.has(I, c, x) if c.base is not None else False
    if isinstance(c, ModelObj) and hasattr(c, "contains"):
        return c.contains(I, x)
    cls = I.type_of(c)
    if I.is_user_class(cls) and not isinstance(c, type):
        m = I.lookup(cls, "__contains__")
        if m is not None:
            return bool_(I, I.call(I.bind(m, c, cls), [x], {}))
    if isinstance(c, type) and issubclass(c, enum.Enum):
        if is_intlike(x):
            return mkbool(z3.Or(*[zi(it(x)) == int(m) for m in c])) if not is_native(x) else \
                any(int(m) == int(x) for m in c)
        return x in list(c)
    if isinstance(c, (range, SRange)) and is_intlike(x):
        if isinstance(c, range):
            if is_native(x):
                return x in c
            if c.step == 1:
                return mkbool(z3.And(zi(it(x)) >= c.start, zi(it(x)) < c.stop))
            raise Unsupported("range step")
        return mkbool(z3.And(zi(it(x)) >= zi(c.lo), zi(it(x)) < zi(c.hi)))
    if isinstance(c, (str, SStr)):
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return mkbool(p.bool("substr"))
    if isinstance(c, BYTESLIKE) and isinstance(x, BYTESLIKE):
        if isinstance(c, bytes) and isinstance(x, bytes):
            return x in c
        raise Unsupported("bytes containment")
    items = I.items_of(c)
    if any(isinstance(y, Range) for y in items):
        from . import loops
        return loops.any_all(I, FnIter(None, ("map", Builtin("eq", lambda y: I.eq(y, x)), [PIter(items)])), True)
    for y in items:
        if y is x or I.truth(I.eq(y, x)):
            return True
    return False


# ---------------------------------------------------------------------------
# methods

def list_extend(I, o, v):
    items = I.items_of(v)
    I.write(o, "items")
    o.items = norm_items(o.items + items)


def join(I, sep, parts):
    items = I.items_of(parts)
    segs = []
    ls = rope(sep)
    for i, x in enumerate(items):
        if isinstance(x, Range):
            from . import loops
            if len(ls):
                raise Unsupported("join of abstract sequence with separator")
            segs += loops.range_bytes(I, x)
            continue
        if not isinstance(x, BYTESLIKE):
            cls = I.type_of(x)
            I.raise_(TypeError, f"sequence item {i}: expected a bytes-like object, {cls.__name__} found")
        if i:
            segs += ls
        segs += rope(x)
    return mkbytes(segs)


def str_join(I, sep, parts):
    items = I.items_of(parts)
    if all(isinstance(x, str) for x in items) and isinstance(sep, str):
        return sep.join(items)
    for x in items:
        if not isinstance(x, (str, SStr, Range)):
            I.raise_(TypeError, "sequence item: expected str instance")
    if any(isinstance(x, Range) for x in items):
        return SStr(I.p.int("joined"), ("join", sep, items))
    return SStr(I.p.int("joined"), ("join", sep, items))


ENCODE = z3.Function("str.encode", z3.IntSort(), z3.IntSort())
UNENCODE = z3.Function("str.unencode", z3.IntSort(), z3.IntSort())


def sepfree(I, x, sep):
    """text that cannot contain the separator"""
    if isinstance(x, str):
        return sep not in x
    if isinstance(x, SStr):
        return x.src is not None and x.src[0] == "dec" and not (set(sep) & set("0123456789-"))
    if isinstance(x, Range):
        from . import loops
        p = I.p

        def probe():
            k = p.int("k")
            p.add(z3.And(k >= zi(x.lo), k < zi(x.hi)))
            return sepfree(I, x.src.at(k), sep)
        return all(kind == "ok" and v is True for _, kind, v, _ in loops.nested(I, probe))
    return False


def tokens(I, s, sep):
    """s.split(sep) for text of known structure"""
    if isinstance(s, str):
        return s.split(sep)
    if sepfree(I, s, sep):
        return [s]
    if s.src is not None and s.src[0] == "join" and s.src[1] == sep and s.src[2]:
        if all(sepfree(I, x, sep) for x in s.src[2]):
            items = list(s.src[2])
            if all(isinstance(x, Range) for x in items):
                raise Unsupported("split of a possibly empty join")
            return items
    if s.src is not None and s.src[0] == "cat":
        out = [""]
        for piece in s.src[1]:
            more = tokens(I, piece, sep)
            a, b = out[-1], more[0]
            if isinstance(a, Range) or isinstance(b, Range):
                raise Unsupported("split of opaque string")
            if a == "":
                out[-1:] = more
            elif b == "":
                out += more[1:]
            else:
                out[-1:] = [I.binop("Add", a, b)] + list(more[1:])
        return out
    raise Unsupported("split of opaque string")


def bit_length(t):
    """the bit length of a number, as a number or a term"""
    p = P()
    if isinstance(t, int):
        return t.bit_length()
    key = ("bl", t.get_id())
    if key in p.divcache:
        return p.divcache[key]
    k = p.int("bits", lo=0)
    a = simp(z3.If(t >= 0, t, -t)) if not p.must(t >= 0) else t
    p.__dict__.setdefault("bitlens", {})[k.get_id()] = a
    p.divcache[key] = k
    p.ex.keep.append(t)
    return k


def bitlen_facts(p, k):
    """relate the bit length k of a term to the term (added on first general use)"""
    a = p.__dict__.get("bitlens", {}).get(k.get_id())
    if a is None or ("blf", k.get_id()) in p.divcache:
        return
    p.divcache["blf", k.get_id()] = k
    for j in list(range(0, 73)) + [80, 96, 128, 256, 1024]:
        p.add((k <= j) == (a < 2 ** j))


def method(I, o, name):
    """attribute of a value of builtin type"""
    p = I.p

    def mk(f):
        return Builtin(f"{type(o).__name__}.{name}", f)

    def native(*a, **k):
        if all(is_native(x) for x in a) and all(is_native(x) for x in k.values()):
            return I.native_call(getattr(o, name), list(a), k)
        raise Unsupported(f"{type(o).__name__}.{name} with symbolic arguments")

    if isinstance(o, (SInt, SBool)) or isinstance(o, int):
        if name == "bit_length":
            return mk(lambda: mkint(bit_length(it(o))))
        if name == "to_bytes":
            def tb(length=1, byteorder="big", *, signed=False):
                return B.to_bytes(it(o), it(length), byteorder, I.truth(signed), I.raise_)
            return mk(tb)
        if name in ("__int__", "__index__", "conjugate"):
            return mk(lambda: mkint(it(o)))
        if name == "__hash__":
            return mk(lambda: hash_(I, o))
        if name == "__eq__":
            return mk(lambda x: I.eq(o, x) if is_intlike(x) else NotImplemented)
        if name in ("__lt__", "__le__", "__gt__", "__ge__"):
            op = {"__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[name]
            return mk(lambda x: I.compare(op, o, x))
        if is_native(o):
            return mk(native) if callable(getattr(o, name, None)) else getattr(o, name, UNBOUND)
        return UNBOUND
    if isinstance(o, SStr):
        if name == "encode":
            def enc(*a):
                return str_encode(I, o)
            return mk(enc)
        if name in ("lower", "upper", "strip", "replace"):
            return mk(lambda *a: SStr(p.int("str")))
        if name in ("startswith", "endswith", "isdigit"):
            return mk(lambda *a: mkbool(p.bool("strtest")))
        if name == "format":
            return mk(lambda *a, **k: SStr(p.int("str")))
        if name == "join":
            return mk(lambda x: str_join(I, o, x))
        if name == "split":
            def split(sep=None, *a):
                if sep is None or a:
                    raise Unsupported("split of opaque string")
                return PList(norm_items(tokens(I, o, sep)))
            return mk(split)
        if name == "__hash__":
            return mk(lambda: hash_(I, o))
        return UNBOUND
    if isinstance(o, str):
        if name == "join":
            return mk(lambda x: str_join(I, o, x))
        if name == "format":
            def fmt(*a, **k):
                vals = list(a) + list(k.values())
                if all(is_native(x) and not I.is_user_class(type(x)) for x in vals):
                    return I.native_call(o.format, list(a), k)
                for x in vals:
                    I.text(x, "__str__")
                return SStr(p.int("str"))
            return mk(fmt)
        if not hasattr(o, name):
            return UNBOUND
        return mk(native)
    if isinstance(o, (bytes, SBytes)):
        if name == "join":
            return mk(lambda x: join(I, o, x))
        if isinstance(o, bytes) and name not in ("startswith", "endswith", "__eq__", "decode"):
            return mk(native) if hasattr(o, name) else UNBOUND
        if name in ("startswith", "endswith"):
            def sw(pre):
                n, m = blen(o), blen(pre)
                if not p.branch(zi(n) >= zi(m)):
                    return False
                if name == "startswith":
                    return B.eq(B.slice_(o, 0, m), pre)
                return B.eq(B.slice_(o, simp(zi(n) - zi(m)), n), pre)
            return mk(sw)
        if name == "hex":
            return mk(lambda *a: SStr(p.int("hex")))
        if name in ("ljust", "rjust"):
            def just(w, fill=b" "):
                n = blen(o)
                w = it(w)
                if not p.branch(zi(w) > zi(n)):
                    return o
                pad = [Rep(fill[0], simp(zi(w) - zi(n)))]
                segs = tuple(rope(o))
                return mkbytes(segs + tuple(pad) if name == "ljust" else tuple(pad) + segs)
            return mk(just)
        if name == "decode":
            def dec(*a):
                return bytes_decode(I, o)
            return mk(dec)
        if name == "__hash__":
            return mk(lambda: hash_(I, o))
        if name == "__eq__":
            return mk(lambda x: I.eq(o, x))
        if name == "tobytes":
            return mk(lambda: o)
        if not hasattr(b"", name):
            return UNBOUND
        if isinstance(o, bytes):
            return mk(native)
        raise Unsupported(f"bytes.{name}")
    if isinstance(o, (ByteArr, bytearray)):
        if isinstance(o, bytearray):
            return mk(native)

        def upd(segs):
            I.write(o, "segs")
            o.segs = rope_norm(segs)
        if name == "append":
            return mk(lambda x: upd(o.segs + tuple(items_to_segs(I, [x]))))
        if name == "extend":
            return mk(lambda x: upd(o.segs + tuple(rope(bytes_(I, x)))))
        if name == "reverse":
            def rev():
                r = reversed_segs(o.segs)
                if r is None:
                    raise Unsupported("reversal of opaque bytes")
                upd(tuple(r))
            return mk(rev)
        if name == "insert":
            def ins(i, x):
                n = blen(o)
                i = clamp_slice(I, n, PSlice(i, None))[0]
                a, b = B.split(o.segs, i)
                upd(tuple(a) + tuple(items_to_segs(I, [x])) + tuple(b))
            return mk(ins)
        if name == "clear":
            return mk(lambda: upd(()))
        if name == "copy":
            return mk(lambda: ByteArr(o.segs))
        if name == "pop":
            def pop(i=-1):
                n = blen(o)
                i = norm_index(I, n, i, "pop")
                v = B.index(o, i)
                delitem(I, o, mkint(i))
                return v
            return mk(pop)
        v = method(I, mkbytes(o.segs), name)
        return v
    if isinstance(o, (PList, PTuple, list, tuple)):
        if name == "__getitem__":
            return mk(lambda k: getitem(I, o, k))
        if name == "__hash__":
            return mk(lambda: hash_(I, o))
        if name == "__len__":
            return mk(lambda: len_(I, o))
        if name == "__iter__":
            return mk(lambda: I.iter(o))
        if name == "__contains__":
            return mk(lambda x: contains(I, o, x))
        if name in ("__eq__",):
            return mk(lambda x: I.eq(o, x))
        if name == "index":
            def idx(x):
                for i, y in enumerate(I.items_of(o)):
                    if isinstance(y, Range):
                        raise Unsupported("index in abstract list")
                    if I.truth(I.eq(y, x)):
                        return i
                I.raise_(ValueError, "not in list")
            return mk(idx)
        if name == "count":
            def cnt(x):
                n = 0
                for y in I.items_of(o):
                    if isinstance(y, Range):
                        raise Unsupported("count in abstract list")
                    n += bool(I.truth(I.eq(y, x)))
                return n
            return mk(cnt)
        if isinstance(o, (tuple, PTuple)):
            if isinstance(o, tuple) and hasattr(o, name) and hasattr(type(o), "_fields"):
                a = getattr(o, name)
                return mk(a) if callable(a) else a
            return UNBOUND
        if isinstance(o, list):
            raise Unsupported(f"method {name} of a module-level list")
        if name == "append":
            def app(x):
                I.write(o, "items")
                o.items.append(x)
            return mk(app)
        if name == "extend":
            return mk(lambda x: list_extend(I, o, x))
        if name == "insert":
            def ins(i, x):
                n = items_len(o.items)
                i = clamp_slice(I, n, PSlice(i, None))[0]
                a, b = split_items(I, o.items, i)
                I.write(o, "items")
                o.items = norm_items(a + [x] + b)
            return mk(ins)
        if name == "pop":
            def pop(i=-1):
                n = items_len(o.items)
                if isinstance(n, int) and n == 0:
                    I.raise_(IndexError, "pop from empty list")
                i = norm_index(I, n, i, "pop")
                v = item_at(I, o.items, i)
                a, _ = split_items(I, o.items, i)
                _, b = split_items(I, o.items, simp(zi(i) + 1))
                I.write(o, "items")
                o.items = norm_items(a + b)
                return v
            return mk(pop)
        if name == "remove":
            def rem(x):
                for i, y in enumerate(o.items):
                    if isinstance(y, Range):
                        raise Unsupported("remove from abstract list")
                    if y is x or I.truth(I.eq(y, x)):
                        I.write(o, "items")
                        del o.items[i]
                        return
                I.raise_(ValueError, "list.remove(x): x not in list")
            return mk(rem)
        if name == "clear":
            def clr():
                I.write(o, "items")
                o.items = []
            return mk(clr)
        if name == "copy":
            return mk(lambda: PList(o.items))
        if name == "reverse":
            def rev():
                if any(isinstance(x, Range) for x in o.items):
                    raise Unsupported("reversal of abstract list")
                I.write(o, "items")
                o.items = o.items[::-1]
            return mk(rev)
        if name == "sort":
            def srt(key=None, reverse=False):
                r = sorted_(I, o, key, reverse)
                I.write(o, "items")
                o.items = r.items
            return mk(srt)
        if name == "popleft":
            return mk(lambda: I.call(method(I, o, "pop"), [0], {}))
        if name == "appendleft":
            return mk(lambda x: I.call(method(I, o, "insert"), [0, x], {}))
        return UNBOUND
    if isinstance(o, (PDict, dict)):
        if name == "__getitem__":
            return mk(lambda k: dict_get(I, o, k))
        if name == "get":
            def get(k, d=None):
                v = dict_lookup(I, o, k)
                return d if v is MISSING else v
            return mk(get)
        if name == "__contains__":
            return mk(lambda k: contains(I, o, k))
        if isinstance(o, dict):
            if name in ("items", "keys", "values", "copy"):
                return mk(lambda: PList(list(getattr(o, name)())) if name != "copy" else PDict(list(o.items())))
            raise Unsupported(f"dict.{name} of module-level dict")
        if name == "setdefault":
            def sd(k, d=None):
                v = dict_lookup(I, o, k)
                if v is MISSING:
                    dict_set(I, o, k, d)
                    return d
                return v
            return mk(sd)
        if name == "pop":
            def pop(k, *d):
                v = dict_lookup(I, o, k)
                if v is MISSING:
                    if d:
                        return d[0]
                    I.raise_(KeyError, k)
                delitem(I, o, k)
                return v
            return mk(pop)
        if name == "update":
            def up(other=None, **kw):
                if other is not None:
                    dict_update(I, o, other)
                for k, v in kw.items():
                    dict_set(I, o, k, v)
            return mk(up)
        if name in ("items", "keys", "values"):
            def view():
                if o.base is not None:
                    return o.base.view(I, o, name)
                return PList([{"items": (k, v), "keys": k, "values": v}[name] for k, v in o.entries])
            return mk(view)
        if name == "clear":
            def clr():
                if o.base is not None:
                    raise Unsupported("clear of unknown dict")
                I.write(o, "entries")
                o.entries = []
            return mk(clr)
        if name == "copy":
            return mk(lambda: PDict(o.entries, o.base))
        return UNBOUND
    if isinstance(o, (PSet, set, frozenset)):
        if isinstance(o, (set, frozenset)):
            return mk(native)
        if name == "add":
            return mk(lambda x: set_add(I, o, x))
        if name in ("discard", "remove"):
            def rem(x):
                i = set_find(I, o, x)
                if i is None:
                    if o.base is not None and o.base.delete(I, o, x):
                        return
                    if name == "remove":
                        I.raise_(KeyError, x)
                    return
                I.write(o, "items")
                del o.items[i]
            return mk(rem)
        if name == "clear":
            def clr():
                I.write(o, "items")
                o.items = []
            return mk(clr)
        if name == "update":
            return mk(lambda x: set_update(I, o, x))
        if name == "copy":
            return mk(lambda: PSet(o.items, o.base))
        if name == "pop":
            def pop():
                if not o.items:
                    I.raise_(KeyError, "pop from an empty set")
                I.write(o, "items")
                return o.items.pop(0)
            return mk(pop)
        return UNBOUND
    if isinstance(o, ITERS):
        if name == "__next__":
            return mk(lambda: next_(I, o))
        if name == "__iter__":
            return mk(lambda: o)
        if name == "close":
            return mk(lambda: None)
        return UNBOUND
    if isinstance(o, SReal) or isinstance(o, float):
        return mk(native) if is_native(o) and hasattr(o, name) else UNBOUND
    if isinstance(o, SRange):
        if name == "start":
            return mkint(o.lo)
        if name == "stop":
            return mkint(o.hi)
        if name == "step":
            return o.step
        return UNBOUND
    if is_native(o):
        if not hasattr(o, name):
            return UNBOUND
        a = getattr(o, name)
        return mk(native) if callable(a) else a
    return UNBOUND


def str_encode(I, s):
    """bytes of an opaque string: one atom per string identity"""
    p = I.p
    cache = p.__dict__.setdefault("strenc", {})
    key = s.t.get_id()
    if s.src is not None and s.src[0] == "decoded":
        return s.src[1]
    if key not in cache:
        n = z3.Function("str.len", z3.IntSort(), z3.IntSort())(s.t)
        p.add(n >= 0)
        a = Atom(f"enc{len(cache)}", n)
        p.add(a.cidf(z3.IntVal(0), n) == ENCODE(s.t))
        p.add(UNENCODE(ENCODE(s.t)) == s.t)
        a.text = s.t
        p.ex.keep.append(s.t)
        cache[key] = (mkbytes([Sub(a, 0, n)]), s.t)
    return cache[key][0]


def bytes_decode(I, b):
    p = I.p
    if isinstance(b, bytes):
        return I.native_call(b.decode, [], {})
    segs = rope(b)
    if len(segs) == 1 and isinstance(segs[0], Sub) and getattr(segs[0].a, "text", None) is not None and \
            simp(zi(segs[0].off) == 0) is True and p.must(zi(segs[0].n) == zi(segs[0].a.len)):
        return SStr(segs[0].a.text, ("decoded", b))
    ok = p.bool("utf8")
    if not p.branch(ok):
        I.raise_(UnicodeDecodeError, "utf-8", b"", 0, 1, "invalid")
    if len(segs) == 1 and isinstance(segs[0], Sub):
        s = segs[0]
        t = p.int("str")
        p.add(ENCODE(t) == s.a.cidf(zi(s.off), zi(s.n)))
        return SStr(t, ("decoded", b))
    return SStr(p.int("str"), ("decoded", b))
