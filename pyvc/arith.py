"""Operators."""
import operator
from fractions import Fraction
import z3

from .core import Unsupported, simp, zi
from .values import *
from . import bytesops as B

NATIVE = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow,
    "LShift": operator.lshift, "RShift": operator.rshift,
    "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor,
}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
          "Mod": "mod", "Pow": "pow", "LShift": "lshift", "RShift": "rshift", "BitOr": "or",
          "BitAnd": "and", "BitXor": "xor"}


def native_ok(v):
    from .interp import is_native
    return is_native(v)


def real(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        f = Fraction(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    t = it(v)
    if isinstance(t, int):
        return z3.RealVal(t)
    return z3.ToReal(t)


def binop(I, op, a, b):
    p = I.p
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("poisoned operand")
    if native_ok(a) and native_ok(b) and not I.is_user_class(type(a)) and not I.is_user_class(type(b)) \
            and not (isinstance(a, (list, dict, set)) or isinstance(b, (list, dict, set))):
        try:
            return NATIVE[op](a, b)
        except Exception as e:
            raise I.wrap_exc(e)
    import enum
    if isinstance(a, enum.IntEnum):
        a = int(a)
    if isinstance(b, enum.IntEnum):
        b = int(b)
    if native_ok(a) and native_ok(b) and isinstance(a, int) and isinstance(b, int):
        try:
            return NATIVE[op](a, b)
        except Exception as e:
            raise I.wrap_exc(e)
    if is_intlike(a) and is_intlike(b):
        if isinstance(a, SBool) and isinstance(b, (SBool, bool)) and op in ("BitAnd", "BitOr", "BitXor"):
            from .core import zb
            x, y = a.t, (b.t if isinstance(b, SBool) else zb(b))
            return mkbool({"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](x, y))
        return intop(I, op, a, b)
    if isinstance(a, (SReal, float)) and (isinstance(b, (SReal, float)) or is_intlike(b)) or \
            isinstance(b, (SReal, float)) and is_intlike(a):
        return realop(I, op, real(a), real(b))
    bl = (bytes, bytearray, SBytes, ByteArr)
    if isinstance(a, bl) and isinstance(b, bl) and op == "Add":
        r = mkbytes(tuple(rope(a)) + tuple(rope(b)))
        if isinstance(a, (ByteArr, bytearray)):
            return ByteArr(rope(r))
        return r
    if op == "Mult" and isinstance(a, bl) and is_intlike(b):
        return repeat_bytes(I, a, b)
    if op == "Mult" and isinstance(b, bl) and is_intlike(a):
        return repeat_bytes(I, b, a)
    if op == "Add" and isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
        return PList(norm_items(I.items_of(a) + I.items_of(b)))
    if op == "Add" and isinstance(a, (tuple, PTuple)) and isinstance(b, (tuple, PTuple)):
        return mktuple(I.items_of(a) + I.items_of(b))
    if op == "Mult" and isinstance(a, (PList, tuple)) and isinstance(b, int):
        items = I.items_of(a) * b
        return PList(items) if isinstance(a, PList) else mktuple(items)
    if isinstance(a, (str, SStr)) and op in ("Add", "Mod", "Mult"):
        if op == "Add" and not isinstance(b, (str, SStr)):
            I.raise_(TypeError, "can only concatenate str")
        return SStr(p.int("str"), ("cat", [a, b]) if op == "Add" else None)
    if isinstance(a, PSet) or isinstance(b, PSet):
        from . import lib
        return lib.set_op(I, op, a, b)
    # user classes
    ca, cb = I.type_of(a), I.type_of(b)
    name = DUNDER[op]
    if I.is_user_class(ca):
        m = I.lookup(ca, f"__{name}__")
        if m is not None:
            r = I.call(I.bind(m, a, ca), [b], {})
            if r is not NotImplemented:
                return r
    if I.is_user_class(cb):
        m = I.lookup(cb, f"__r{name}__")
        if m is not None:
            r = I.call(I.bind(m, b, cb), [a], {})
            if r is not NotImplemented:
                return r
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("operation on opaque value")
    I.raise_(TypeError, f"unsupported operand type(s) for {op}: {ca.__name__!r} and {cb.__name__!r}")


def repeat_bytes(I, a, n):
    n = it(n)
    if isinstance(n, int):
        if n <= 0:
            return b""
        segs = rope(a)
        la = blen(a)
        if isinstance(la, int) and la == 1:
            b, _ = B.head(segs)
            return mkbytes([Rep(b, n)])
        if n <= 64:
            return mkbytes(tuple(segs) * n)
        raise Unsupported("long repetition")
    la = blen(a)
    if isinstance(la, int) and la == 1:
        b, _ = B.head(rope(a))
        if not I.p.branch(n > 0):
            return b""
        return mkbytes([Rep(b, n)])
    raise Unsupported("symbolic repetition")


def realop(I, op, x, y):
    if op == "Add":
        return SReal(z3.simplify(x + y))
    if op == "Sub":
        return SReal(z3.simplify(x - y))
    if op == "Mult":
        return SReal(z3.simplify(x * y))
    if op == "Div":
        if not I.p.branch(y != 0):
            I.raise_(ZeroDivisionError, "division by zero")
        return SReal(z3.simplify(x / y))
    raise Unsupported(f"real {op}")


def tz_of(v):
    if isinstance(v, SInt):
        return v.tz
    if isinstance(v, int):
        v = int(v)
        if v == 0:
            return 10 ** 6
        return (v & -v).bit_length() - 1
    return 0


def bitlen_used(p, *ts):
    if "bitlens" in p.__dict__:
        from . import lib
        for t in ts:
            if isinstance(t, z3.ExprRef) and t.get_id() in p.bitlens:
                lib.bitlen_facts(p, t)


def bitlen_order(p, op, x, y):
    """compare a bit length with a constant: compare the number with a power of two"""
    bl = p.__dict__.get("bitlens")
    if not bl:
        return None
    if isinstance(x, int) and isinstance(y, z3.ExprRef) and y.get_id() in bl:
        return bitlen_order(p, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op], y, x)
    if not (isinstance(x, z3.ExprRef) and x.get_id() in bl and isinstance(y, int)):
        bitlen_used(p, x, y)
        return None
    a = bl[x.get_id()]
    c = y if op in (">", "<=") else y - 1       # x > c, or its negation
    gt = (a >= 2 ** c) if 0 <= c < 4096 else z3.BoolVal(c < 0)
    if c >= 4096:
        bitlen_used(p, x)
        return None
    return mkbool(gt if op in (">", ">=") else z3.Not(gt))


def intop(I, op, a, b):
    p = I.p
    x, y = it(a), it(b)
    bitlen_used(p, x, y)
    if op == "Add":
        return mkint(x + y, min(tz_of(a), tz_of(b)))
    if op == "Sub":
        return mkint(x - y, min(tz_of(a), tz_of(b)))
    if op == "Mult":
        if not isinstance(x, int) and not isinstance(y, int):
            y2 = try_const(p, y)
            if y2 is None:
                x2 = try_const(p, x)
                if x2 is None:
                    return mkint(x * y)
                return mkint(x2 * y)
            y = y2
        return mkint(x * y, min(tz_of(a) + tz_of(b), 64))
    if op == "Div":
        if not p.branch(zi(y) != 0):
            I.raise_(ZeroDivisionError, "division by zero")
        return SReal(z3.ToReal(zi(x)) / z3.ToReal(zi(y)))
    if op in ("FloorDiv", "Mod"):
        if not isinstance(y, int):
            if not p.branch(y != 0):
                I.raise_(ZeroDivisionError, "integer division or modulo by zero")
            y2 = try_const(p, y)
            if y2 is None:
                if not p.branch(y > 0):
                    raise Unsupported("division by a negative term")
                q, m = p.int("q"), p.int("m")
                p.add(zi(x) == q * y + m)
                p.add(z3.And(m >= 0, m < y))
                return mkint(q if op == "FloorDiv" else m)
            y = y2
        if y == 0:
            I.raise_(ZeroDivisionError, "integer division or modulo by zero")
        if y < 0:
            q, m = p.divmod(simp(-zi(x)), -y)
            return mkint(q if op == "FloorDiv" else -m)
        q, m = p.divmod(x, y)
        if op == "FloorDiv":
            tz = 0
            if isinstance(a, SInt) and y & (y - 1) == 0:
                tz = max(0, a.tz - (y.bit_length() - 1))
            return mkint(q, tz)
        return mkint(m)
    if op in ("LShift", "RShift"):
        if not isinstance(y, int):
            y = p.concretize(y, 0, 128, "shift")
        if y < 0:
            I.raise_(ValueError, "negative shift count")
        if op == "LShift":
            return mkint(x * 2 ** y, min(tz_of(a) + y, 64))
        return mkint(p.divmod(x, 2 ** y)[0], max(0, tz_of(a) - y))
    if op == "Pow":
        if not isinstance(y, int):
            y = p.concretize(y, 0, 128, "exponent")
        if y < 0:
            raise Unsupported("negative power")
        if isinstance(x, int):
            return x ** y
        r = z3.IntVal(1)
        for _ in range(y):
            r = r * x
        return mkint(r)
    if op == "BitAnd":
        return mkint(bitand(p, x, y))
    if op == "BitOr":
        return bitor(p, a, b, x, y)
    if op == "BitXor":
        if not isinstance(x, int) and not isinstance(y, int) and \
                p.must(z3.And(x >= 0, x <= 255, y >= 0, y <= 255)):
            return mkint(xor8(p, x, y))
        r = bitor(p, a, b, x, y)
        return mkint(2 * zi(it(r)) - zi(x) - zi(y)) if True else None
    raise Unsupported(f"int {op}")


XOR8 = z3.Function("xor8", z3.IntSort(), z3.IntSort(), z3.IntSort())


def xor8(p, x, y):
    """exclusive or of two octets: its own inverse"""
    x, y = simp(x), simp(y)
    if y.get_id() < x.get_id():
        x, y = y, x
    r = XOR8(x, y)
    p.add(z3.And(r >= 0, r <= 255))
    p.add(z3.And(XOR8(x, r) == y, XOR8(r, x) == y, XOR8(y, r) == x, XOR8(r, y) == x, XOR8(y, x) == r))
    p.precise = False
    return r


def try_const(p, t):
    """value of t if the path forces a single small value"""
    t = simp(t)
    if isinstance(t, int):
        return t
    return None


def bitand(p, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x & y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return 0
        if y < 0:
            # a & ~m == a - (a & m)
            m = ~y
            if m == 0:
                return x
            return simp(x - bitand(p, x, m))
        res = 0
        lo = 0
        while y >> lo:
            if not (y >> lo) & 1:
                lo += 1
                continue
            hi = lo
            while (y >> hi) & 1:
                hi += 1
            q = p.divmod(x, 2 ** lo)[0]
            m = p.divmod(q, 2 ** (hi - lo))[1]
            res = res + m * 2 ** lo
            lo = hi
        return simp(res)
    for k in (1, 8, 16, 32):
        if p.must(z3.And(x >= 0, x < 2 ** k)) or p.must(z3.And(y >= 0, y < 2 ** k)):
            if k > 16:
                break
            res = 0
            for i in range(k):
                bx = bit(p, x, i)
                by = bit(p, y, i)
                res = res + z3.If(z3.And(zi(bx) == 1, zi(by) == 1), 2 ** i, 0)
            return simp(res)
    if p.must(zi(x) >= 0) or p.must(zi(y) >= 0):
        r = p.int("and", lo=0)
        p.precise = False
        if p.must(zi(x) >= 0):
            p.add(r <= x)
        if p.must(zi(y) >= 0):
            p.add(r <= y)
        return r
    raise Unsupported("bitwise and of unbounded terms")


def bit(p, x, i):
    q = p.divmod(x, 2 ** i)[0]
    return p.divmod(q, 2)[1]


def bitor(p, a, b, x, y):
    ta, tb = tz_of(a), tz_of(b)
    if isinstance(x, int) and x == 0:
        return b if isinstance(b, SInt) and b.cls is None else mkint(y, tb)
    if isinstance(y, int) and y == 0:
        return a if isinstance(a, SInt) and a.cls is None else mkint(x, ta)
    tz = min(ta, tb)
    # disjoint bits: addition
    if ta and p.must(z3.And(zi(y) >= 0, zi(y) < 2 ** min(ta, 64))):
        return mkint(x + y, tz)
    if tb and p.must(z3.And(zi(x) >= 0, zi(x) < 2 ** min(tb, 64))):
        return mkint(x + y, tz)
    if isinstance(x, int) or isinstance(y, int):
        return mkint(x + y - bitand(p, x, y), tz)
    for k in (8, 16):
        for u, w in ((x, y), (y, x)):
            if p.must(z3.And(w >= 0, w < 2 ** k)):
                # the low k bits interact
                q, m = p.divmod(u, 2 ** k)
                if p.must(zi(m) == 0):
                    return mkint(x + y)
                return mkint(zi(x) + zi(y) - bitand(p, simp(m), w))
    r = p.int("or")
    p.precise = False
    if p.must(z3.And(zi(x) >= 0, zi(y) >= 0)):
        p.add(z3.And(r >= x, r >= y, r <= zi(x) + zi(y)))
    return mkint(r)


# ---------------------------------------------------------------------------

def compare(I, op, a, b):
    if op == "is":
        return identical(I, a, b)
    if op == "is not":
        r = identical(I, a, b)
        return mkbool(z3.Not(r.t)) if isinstance(r, SBool) else not r
    if op == "in":
        from . import lib
        return lib.contains(I, b, a)
    if op == "not in":
        from . import lib
        return I.not_(lib.contains(I, b, a))
    if op == "==":
        return eq(I, a, b)
    if op == "!=":
        return ne(I, a, b)
    return order(I, op, a, b)


def identical(I, a, b):
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("poisoned operand")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (SBool, SInt)) and (isinstance(y, (bool, SBool, SInt)) or
                                             type(y) is int and isinstance(x, SInt)):
            tx, ty = I.type_of(x), I.type_of(y)
            if tx is not ty:
                return False
            return mkbool(zi(it(x)) == zi(it(y)))
    if isinstance(a, SStr) and isinstance(b, (str, SStr)) or isinstance(b, SStr) and isinstance(a, str):
        return eq(I, a, b)
    if isinstance(a, AbsInst) and isinstance(b, AbsInst):
        raise Unsupported("identity of abstract values")
    if isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
        return False
    import enum
    if isinstance(a, SInt) and isinstance(b, enum.Enum) or isinstance(b, SInt) and isinstance(a, enum.Enum):
        if I.type_of(a) is I.type_of(b):
            return mkbool(zi(it(a)) == zi(it(b)))
        return False
    if isinstance(a, (int, str, bytes, float, tuple)) and type(a) is type(b) and native_ok(a) and native_ok(b):
        return a == b if isinstance(a, int) else a is b
    return False


def ne(I, a, b):
    ca = I.type_of(a)
    if I.is_user_class(ca) and not isinstance(a, (int, type, SInt)):
        m = I.lookup(ca, "__ne__")
        if m is not None:
            r = I.call(I.bind(m, a, ca), [b], {})
            if r is not NotImplemented:
                return r
    return I.not_(eq(I, a, b))


BYTESLIKE = (bytes, bytearray, SBytes, ByteArr)


def eq(I, a, b):
    p = I.p
    if a is b and not isinstance(a, (float, Inst)):
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("poisoned operand")
    if is_intlike(a) and is_intlike(b):
        x, y = it(a), it(b)
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        bitlen_used(p, x, y)
        return mkbool(zi(x) == zi(y))
    if isinstance(a, (SReal, float)) and (isinstance(b, (SReal, float)) or is_intlike(b)) or \
            isinstance(b, (SReal, float)) and is_intlike(a):
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        return mkbool(real(a) == real(b))
    if isinstance(a, BYTESLIKE) and isinstance(b, BYTESLIKE):
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return a == b
        return B.eq(a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SStr) and x.src is not None and x.src[0] == "dec":
                if isinstance(y, str):
                    if not (y.isascii() and y.lstrip("-").isdigit() and str(int(y)) == y):
                        return False
                    return eq(I, x.src[1], int(y))
                if y.src is not None and y.src[0] == "dec":
                    return eq(I, x.src[1], y.src[1])
        return mkbool(str_term(a) == str_term(b))
    if isinstance(a, (tuple, PTuple)) and isinstance(b, (tuple, PTuple)):
        return seq_eq(I, I.items_of(a), I.items_of(b))
    if isinstance(a, (list, PList)) and isinstance(b, (list, PList)):
        return seq_eq(I, I.items_of(a), I.items_of(b))
    if isinstance(a, AbsInst) and isinstance(b, AbsInst) and a.cls is b.cls:
        return mkbool(zi(a.term) == zi(b.term))
    if isinstance(a, PDict) and isinstance(b, (PDict, dict)) or isinstance(b, PDict) and isinstance(a, dict):
        raise Unsupported("dict equality")
    if isinstance(a, PSet) and isinstance(b, PSet):
        from . import lib
        return lib.set_eq(I, a, b)
    ca, cb = I.type_of(a), I.type_of(b)
    ua = I.is_user_class(ca) and not isinstance(a, type)
    ub = I.is_user_class(cb) and not isinstance(b, type)
    if isinstance(a, ModelObj_()) and hasattr(a, "eq"):
        return a.eq(I, b)
    if isinstance(b, ModelObj_()) and hasattr(b, "eq"):
        return b.eq(I, a)
    if ua or ub:
        if isinstance(a, AbsInst) or isinstance(b, AbsInst):
            if ca is not cb and not (issubclass(ca, cb) or issubclass(cb, ca)) and \
                    (not ua or not ub):
                return False
            raise Unsupported("equality of abstract values")
        order_ = [(a, b, ca), (b, a, cb)]
        if ub and ua and ca is not cb and issubclass(cb, ca):
            order_.reverse()
        for x, y, c in order_:
            if not I.is_user_class(c):
                continue
            m = I.lookup(c, "__eq__")
            if m is None:
                continue
            r = I.call(I.bind(m, x, c), [y], {})
            if r is not NotImplemented:
                return r
        return a is b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("equality of opaque value")
    if native_ok(a) and native_ok(b):
        return bool(a == b)
    if isinstance(a, (BoundMethod,)) and isinstance(b, BoundMethod):
        return a.self is b.self and a.fn is b.fn
    return False


def ModelObj_():
    from .interp import ModelObj
    return ModelObj


def seq_eq(I, A, Bs):
    """elementwise equality of item lists (with Range segments)"""
    p = I.p
    A, Bs = list(A), list(Bs)
    la, lb = items_len(A), items_len(Bs)
    conj = []
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
    elif not same(la, lb):
        if not p.branch(zi(la) == zi(lb)):
            return False
    guard = 0
    while A or Bs:
        guard += 1
        if guard > 2000:
            raise Unsupported("sequence comparison")
        if A and isinstance(A[0], Range) and p.must(zi(A[0].n) <= 0):
            A.pop(0)
            continue
        if Bs and isinstance(Bs[0], Range) and p.must(zi(Bs[0].n) <= 0):
            Bs.pop(0)
            continue
        if not A or not Bs:
            break
        x, y = A[0], Bs[0]
        if isinstance(x, Range) and isinstance(y, Range):
            if x.src is y.src and p.must(zi(x.lo) == zi(y.lo)):
                if p.must(zi(x.hi) == zi(y.hi)):
                    A.pop(0), Bs.pop(0)
                elif p.branch(zi(x.hi) <= zi(y.hi)):
                    A.pop(0)
                    Bs[0] = Range(y.src, x.hi, y.hi)
                else:
                    Bs.pop(0)
                    A[0] = Range(x.src, y.hi, x.hi)
                continue
            if p.must(zi(x.n) == zi(y.n)):
                r = range_eq(I, x, y)
                if r is not None:
                    conj.append(r)
                    A.pop(0), Bs.pop(0)
                    continue
            raise Unsupported("comparison of unrelated abstract sequences")
        if isinstance(x, Range):
            if not p.branch(zi(x.n) > 0):
                A.pop(0)
                continue
            A[0:1] = [x.src.at(x.lo), Range(x.src, simp(x.lo + 1), x.hi)]
            continue
        if isinstance(y, Range):
            if not p.branch(zi(y.n) > 0):
                Bs.pop(0)
                continue
            Bs[0:1] = [y.src.at(y.lo), Range(y.src, simp(y.lo + 1), y.hi)]
            continue
        r = True if x is y else eq(I, x, y)
        if isinstance(r, SBool):
            conj.append(r.t)
        elif not I.truth(r):
            return False
        A.pop(0), Bs.pop(0)
    if not conj:
        return True
    return mkbool(z3.And(*conj))


def relkey(kind, x, y):
    def t(v):
        v = simp(v)
        return v if isinstance(v, int) else ("t", v.get_id())
    return (kind, id(x.src), t(x.lo), id(y.src), t(y.lo), t(x.n))


def range_eq(I, x, y):
    """pointwise equality of two ranges of the same length"""
    p = I.p
    from . import loops
    rel = p.__dict__.setdefault("seqrel", {})
    key = relkey("eq", x, y)
    if key in rel:
        return z3.BoolVal(rel[key][0])
    k = p.int("k")

    def body():
        p.add(z3.And(k >= 0, k < zi(x.n)))
        a = x.src.at(simp(zi(x.lo) + k))
        b = y.src.at(simp(zi(y.lo) + k))
        return I.truth(eq(I, a, b))
    res = loops.nested(I, body)
    if any(kind != "ok" for _, kind, v, _ in res):
        return None
    if all(v is True for _, kind, v, _ in res):
        return z3.BoolVal(True)

    def differ(k, x, y):
        return not I.truth(eq(I, x.src.at(simp(zi(k))), y.src.at(simp(zi(k) - zi(x.lo) + zi(y.lo)))))
    r = p.branch(p.bool("seqeq"))
    keep = (r, x, y)
    rel = p.__dict__.setdefault("seqrel", {})       # nested() replaces it
    rel[key] = keep
    p.ex.keep += [x.src, y.src] + [t for t in (simp(x.lo), simp(y.lo), simp(x.n)) if not isinstance(t, int)]
    rel[relkey("eq", y, x)] = keep
    if r:
        def holds(k, x=x, y=y):
            if differ(k, x, y):
                raise loops.PathEnd()
        loops.forall(I, x.lo, x.hi, holds)
        if not same(x.lo, y.lo):
            loops.forall(I, y.lo, y.hi, lambda k: holds(k, y, x))
    else:
        w = p.int("k")
        p.add(z3.And(w >= zi(x.lo), w < zi(x.hi)))
        if not differ(w, x, y):
            raise loops.PathEnd()
        loops.witness(I, w)
    return z3.BoolVal(r)


def range_lt(I, x, y, orequal):
    """lexicographic order of two unrelated ranges: an unknown that respects equality"""
    p = I.p
    rel = p.__dict__.setdefault("seqrel", {})
    key = ("lt",) + relkey("", x, y) + relkey("", y, x)
    if key not in rel:
        e = I.truth(seq_eq(I, [x], [y]))
        rel = p.__dict__.setdefault("seqrel", {})
        if e:
            rel[key] = (False, True)
        else:
            rel[key] = (p.branch(p.bool("seqlt")), False)
            p.precise = False
        p.ex.keep += [x.src, y.src] + [t for t in (simp(x.lo), simp(y.lo), simp(x.n), simp(y.n))
                                       if not isinstance(t, int)]
    lt, e = rel[key]
    return lt or e and orequal


def order(I, op, a, b):
    p = I.p
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("poisoned operand")
    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    if is_intlike(a) and is_intlike(b):
        x, y = it(a), it(b)
        if isinstance(x, int) and isinstance(y, int):
            return f(x, y)
        r = bitlen_order(p, op, x, y)
        if r is not None:
            return r
        return mkbool(f(zi(x), zi(y)))
    if isinstance(a, (SReal, float)) and (isinstance(b, (SReal, float)) or is_intlike(b)) or \
            isinstance(b, (SReal, float)) and is_intlike(a):
        if native_ok(a) and native_ok(b):
            return f(a, b)
        if isinstance(b, float) and b == float("inf"):
            return op in ("<", "<=")
        if isinstance(a, float) and a == float("inf"):
            return op in (">", ">=")
        return mkbool(f(real(a), real(b)))
    if isinstance(a, (tuple, PTuple)) and isinstance(b, (tuple, PTuple)) or \
            isinstance(a, PList) and isinstance(b, PList):
        if op in (">", ">="):
            return order(I, {">": "<", ">=": "<="}[op], b, a)
        return seq_lt(I, I.items_of(a), I.items_of(b), op == "<=")
    ca, cb = I.type_of(a), I.type_of(b)
    name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
    refl = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}
    if I.is_user_class(ca) or I.is_user_class(cb):
        if isinstance(a, AbsInst) or isinstance(b, AbsInst):
            raise Unsupported("order of abstract values")
        if I.is_user_class(ca):
            m = I.lookup(ca, name[op])
            if m is not None:
                r = I.call(I.bind(m, a, ca), [b], {})
                if r is not NotImplemented:
                    return r
        if I.is_user_class(cb):
            m = I.lookup(cb, name[refl[op]])
            if m is not None:
                r = I.call(I.bind(m, b, cb), [a], {})
                if r is not NotImplemented:
                    return r
        I.raise_(TypeError, f"{op!r} not supported")
    if isinstance(a, ModelObj_()) and hasattr(a, "order"):
        return a.order(I, op, b)
    if native_ok(a) and native_ok(b):
        try:
            return f(a, b)
        except TypeError as e:
            raise I.wrap_exc(e)
    if isinstance(a, BYTESLIKE) and isinstance(b, BYTESLIKE):
        raise Unsupported("order of symbolic bytes")
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return mkbool(p.bool("strlt"))
    I.raise_(TypeError, f"{op!r} not supported between {ca.__name__!r} and {cb.__name__!r}")


def seq_lt(I, A, Bs, orequal):
    p = I.p
    A, Bs = list(A), list(Bs)
    guard = 0
    while True:
        guard += 1
        if guard > 300:
            raise Unsupported("sequence order")
        if len(A) == 1 and len(Bs) == 1 and isinstance(A[0], Range) and isinstance(Bs[0], Range) and \
                not (A[0].src is Bs[0].src and p.must(zi(A[0].lo) == zi(Bs[0].lo))):
            return range_lt(I, A[0], Bs[0], orequal)
        for L in (A, Bs):
            while L and isinstance(L[0], Range):
                r = L[0]
                if A is not Bs and A and Bs and isinstance(A[0], Range) and isinstance(Bs[0], Range) and \
                        A[0].src is Bs[0].src and p.must(zi(A[0].lo) == zi(Bs[0].lo)):
                    break
                if p.branch(zi(r.n) > 0):
                    L[0:1] = [r.src.at(r.lo), Range(r.src, simp(r.lo + 1), r.hi)]
                else:
                    L.pop(0)
        if A and Bs and isinstance(A[0], Range) and isinstance(Bs[0], Range):
            x, y = A[0], Bs[0]
            if p.must(zi(x.hi) == zi(y.hi)):
                A.pop(0), Bs.pop(0)
            elif p.branch(zi(x.hi) <= zi(y.hi)):
                A.pop(0)
                Bs[0] = Range(y.src, x.hi, y.hi)
            else:
                Bs.pop(0)
                A[0] = Range(x.src, y.hi, x.hi)
            continue
        if not A:
            return bool(Bs) or orequal
        if not Bs:
            return False
        x, y = A.pop(0), Bs.pop(0)
        if I.truth(eq(I, x, y)):
            continue
        return order(I, "<", x, y)
