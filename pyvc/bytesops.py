"""Operations on symbolic byte strings."""
import z3
from .core import Unsupported, simp, zi
from .values import *


def spec_tag_bytes(tag):
    """X.690 identifier octets of a (concrete) tag, low or high form."""
    from .interp import getfield
    cls = int(getfield(tag, "cls"))
    con = bool(getfield(tag, "constructed"))
    num = int(getfield(tag, "number"))
    first = (cls << 6) | (0x20 if con else 0)
    if num < 0x1f:
        return bytes([first | num])
    out = [num & 0x7f]
    num >>= 7
    while num:
        out.append(0x80 | (num & 0x7f))
        num >>= 7
    return bytes([first | 0x1f] + out[::-1])


def expand_hdr(seg):
    p = P()
    out = [Lit(spec_tag_bytes(seg.tag))]
    n = seg.blen
    if isinstance(n, int):
        if n < 0x80:
            return out + [Lit(bytes([n]))]
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        return out + [Lit(bytes([0x80 | len(b)]) + b)]
    if p.branch(n < 0x80):
        return out + [Byt(n)]
    for k in range(1, 9):
        if p.branch(n < 256 ** k):
            p.add(seg.n == k + 2)
            return out + [Lit(bytes([0x80 | k]))] + digits(n, k)
    raise Unsupported("length beyond 2**64")


def digits(t, n):
    """big-endian base-256 digits of a term known to be in [0, 256**n)"""
    p = P()
    out = []
    cur = t
    for k in range(n):
        if k == n - 1:
            out.append(Byt(cur))
        else:
            q, m = p.divmod(cur, 256)
            out.append(Byt(m))
            cur = q
    return out[::-1]


def expand(seg):
    """segments equivalent to seg, made of bytes"""
    if isinstance(seg, Hdr):
        return expand_hdr(seg)
    if isinstance(seg, RangeSeg):
        p = P()
        if not p.branch(zi(seg.lo) < zi(seg.hi)):
            return []
        first = elem_bytes(seg.mp, seg.lo)
        return list(first) + [RangeSeg(seg.mp, simp(seg.lo + 1), seg.hi)]
    raise Unsupported(f"content of {seg}")


def elem_bytes(mp, k):
    p = P()
    cases = mp.cases(k)
    for i, (cond, r) in enumerate(cases):
        if i == len(cases) - 1:
            p.add(cond)
            hit = True
        else:
            hit = p.branch(cond)
        if hit:
            segs = rope(r)
            n = 0
            for s in segs:
                n = n + s.n
            kk = zi(k)
            if getattr(mp, "const", None) is None:
                p.add(mp.pos(kk + 1) - mp.pos(kk) == n)
            return segs


def split(segs, x):
    """cut at offset x, where 0 <= x <= len is known"""
    p = P()
    segs = list(segs)
    x = simp(x)
    left = []
    pos = 0
    guard = 0
    i = 0
    while i < len(segs):
        guard += 1
        if guard > 400:
            raise Unsupported("rope split")
        s = segs[i]
        n = s.n
        rel = simp(x - pos)
        if isinstance(rel, int):
            if rel == 0:
                return left, segs[i:]
            if isinstance(n, int):
                if rel >= n:
                    left.append(s)
                    pos = simp(pos + n)
                    i += 1
                    continue
                a, b = cut(s, rel)
                if a is None:
                    segs[i:i + 1] = b
                    continue
                return left + a, b + segs[i + 1:]
        last = i == len(segs) - 1
        if last and isinstance(s, (Sub, Rep)):
            a, b = cut(s, rel)
            return left + a, b
        if p.must(zi(rel) == 0):
            return left, segs[i:]
        if isinstance(s, RangeSeg) and getattr(s.mp, "unit", False) and last:
            return left + [RangeSeg(s.mp, s.lo, simp(zi(s.lo) + rel))], \
                [RangeSeg(s.mp, simp(zi(s.lo) + rel), s.hi)]
        if isinstance(s, RangeSeg):
            r = cut_range(s, rel)
            if r is not None:
                return left + r[0], r[1] + segs[i + 1:]
        if p.branch(zi(rel) >= zi(n)):
            left.append(s)
            pos = simp(pos + n)
            i += 1
            continue
        if isinstance(s, (Sub, Rep)):
            a, b = cut(s, rel)
            return left + a, b + segs[i + 1:]
        if isinstance(s, RangeSeg) and getattr(s.mp, "const", None) is not None:
            # equal pieces: the cut is in piece rel // length
            size = sum_len(s.mp.const)
            q, r = p.divmod(rel, size)
            p.add(zi(q) < zi(s.hi) - zi(s.lo))
            p.add(zi(q) >= 0)
            a, b = split(s.mp.const, r)
            k = simp(zi(s.lo) + zi(q))
            return left + [RangeSeg(s.mp, s.lo, k)] + a, b + [RangeSeg(s.mp, simp(zi(k) + 1), s.hi)] + segs[i + 1:]
        if p.branch(zi(rel) == 0):
            return left, segs[i:]
        if isinstance(s, Lit):
            k = p.concretize(rel, 0, n - 1 if n > 1 else 0, "offset")
            return left + [Lit(s.b[:k])], [Lit(s.b[k:])] + segs[i + 1:]
        segs[i:i + 1] = expand(s)
    return left, []


def cut_range(s, rel):
    p = P()
    cands = [s.lo, s.hi] + list(p.__dict__.get("ghosts", ()))
    for k in cands:
        t = simp(s.mp.span(s.lo, k))
        if p.must(zi(rel) == zi(t)) and p.must(z3.And(zi(s.lo) <= zi(k), zi(k) <= zi(s.hi))):
            return [RangeSeg(s.mp, s.lo, k)], [RangeSeg(s.mp, k, s.hi)]
    return None


def cut(s, rel):
    if isinstance(s, Sub):
        return [Sub(s.a, s.off, rel)], [Sub(s.a, s.off + rel, s.n - rel)]
    if isinstance(s, Rep):
        return [Rep(s.v, rel)], [Rep(s.v, s.n - rel)]
    if isinstance(s, Lit) and isinstance(rel, int):
        return [Lit(s.b[:rel])], [Lit(s.b[rel:])]
    return None, expand(s)


def head(segs):
    """(first byte term, remaining segments); the rope must be non-empty on this path"""
    p = P()
    segs = list(segs)
    while segs:
        s = segs[0]
        n = s.n
        if isinstance(n, int):
            if n <= 0:
                segs.pop(0)
                continue
        elif not isinstance(s, Hdr):
            if not p.branch(n > 0):
                segs.pop(0)
                continue
        if isinstance(s, Lit):
            return s.b[0], ([Lit(s.b[1:])] if len(s.b) > 1 else []) + segs[1:]
        if isinstance(s, Byt):
            return s.t, segs[1:]
        if isinstance(s, Sub):
            return s.a.byte(s.off), [Sub(s.a, s.off + 1, s.n - 1)] + segs[1:]
        if isinstance(s, Rep):
            return s.v, [Rep(s.v, s.n - 1)] + segs[1:]
        segs[0:1] = expand(s)
    return None, []


def slice_(v, i, j):
    """v[i:j] for 0 <= i <= j <= len known"""
    segs = rope(v)
    i, j = simp(i), simp(j)
    n = blen(v)
    if same(i, 0) and same(j, n):
        return mkbytes(segs)
    if len(segs) == 1 and isinstance(segs[0], Sub):
        s = segs[0]
        return mkbytes([Sub(s.a, s.off + i, zi(j) - zi(i))])
    # cut the tail first so that offsets stay relative to the start
    if not same(j, n):
        segs, _ = split(segs, j)
    if not same(i, 0):
        _, segs = split(segs, i)
    return mkbytes(segs)


def index(v, i):
    """byte at offset i, 0 <= i < len known"""
    segs = rope(v)
    i = simp(i)
    if len(segs) == 1 and isinstance(segs[0], Sub):
        return mkint(segs[0].a.byte(segs[0].off + i))
    if len(segs) == 1 and isinstance(segs[0], Rep):
        return mkint(segs[0].v)
    _, r = split(segs, i)
    r = drop_empty(r)
    if r and isinstance(r[0], Hdr):
        return spec_tag_bytes(r[0].tag)[0]
    b, _ = head(r)
    if b is None:
        raise Unsupported("index outside rope")
    return mkint(b)


def eq(a, b):
    """content equality: bool or SBool"""
    if a is b:
        return True
    p = P()
    la, lb = blen(a), blen(b)
    if isinstance(la, int) and isinstance(lb, int) and la != lb:
        return False
    A, B = list(rope(a)), list(rope(b))
    conj = []
    if not same(la, lb):
        if not p.must(zi(la) == zi(lb)):
            # different lengths are unequal; decide first
            whole = opaque_eq(A, B)
            if whole is not None and not p.must(z3.And(zi(la) <= 8, zi(lb) <= 8)):
                p.precise = False
                return mkbool(z3.And(zi(la) == zi(lb), whole))
            if not p.branch(zi(la) == zi(lb)):
                return False
    guard = 0
    while A or B:
        guard += 1
        if guard > 3000:
            raise Unsupported("rope comparison")
        A = drop_empty(A)
        B = drop_empty(B)
        if not A and not B:
            break
        if not A or not B:
            # equal total lengths: the rest is empty on this path
            rest = A or B
            if p.must(zi(sum_len(rest)) == 0):
                break
            p.add(zi(sum_len(rest)) == 0)
            break
        x, y = A[0], B[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            k = min(x.n, y.n)
            if x.b[:k] != y.b[:k]:
                return False
            A[0:1] = [Lit(x.b[k:])] if x.n > k else []
            B[0:1] = [Lit(y.b[k:])] if y.n > k else []
            continue
        if isinstance(x, Hdr) and isinstance(y, Hdr):
            from .interp import tags_equal
            if tags_equal(x.tag, y.tag):
                conj.append(zi(x.blen) == zi(y.blen))
                A.pop(0), B.pop(0)
                continue
            return False
        if isinstance(x, EncSeg) and isinstance(y, EncSeg):
            # obj: (kind, what, identity term or None); encodings of one kind are injective
            if x.obj is y.obj:
                A.pop(0), B.pop(0)
                continue
            if x.obj[0] == y.obj[0] and x.obj[2] is not None and y.obj[2] is not None:
                conj.append(zi(x.obj[2]) == zi(y.obj[2]))
                A.pop(0), B.pop(0)
                continue
        if isinstance(x, RangeSeg) and isinstance(y, RangeSeg) and x.mp is y.mp:
            if p.must(zi(x.lo) == zi(y.lo)) and p.must(zi(x.hi) == zi(y.hi)):
                A.pop(0), B.pop(0)
                continue
        if isinstance(x, Sub) and isinstance(y, Sub):
            if x.a is y.a and p.must(zi(x.off) == zi(y.off)):
                if p.must(zi(x.n) == zi(y.n)):
                    A.pop(0), B.pop(0)
                    continue
                if p.branch(zi(x.n) <= zi(y.n)):
                    A.pop(0)
                    B[0] = Sub(y.a, y.off + x.n, y.n - x.n)
                else:
                    A[0] = Sub(x.a, x.off + y.n, x.n - y.n)
                    B.pop(0)
                continue
            small = small_len(x, y)
            if small is None and p.must(z3.And(zi(x.n) <= 8, zi(y.n) <= 8)):
                small = 8
            if small is None:
                o = opaque_eq(A, B)
                if o is None:
                    o = p.bool("beq")
                p.precise = False
                conj.append(o)
                A = B = []
                break
        if isinstance(x, Rep) and isinstance(y, Rep):
            if p.must(zi(x.n) == zi(y.n)):
                conj.append(z3.Or(zi(x.n) == 0, zi(x.v) == zi(y.v)))
                A.pop(0), B.pop(0)
                continue
        if isinstance(x, (Sub, Rep)) and isinstance(y, (Sub, Rep)) and small_len(x, y) is None and \
                not p.must(z3.And(zi(x.n) <= 8, zi(y.n) <= 8)):
            o = p.bool("beq")
            p.precise = False
            conj.append(o)
            A = B = []
            break
        if isinstance(x, RangeSeg) != isinstance(y, RangeSeg) and \
                (isinstance(x, Sub) or isinstance(y, Sub)):
            o = p.bool("beq")
            p.precise = False
            conj.append(o)
            break
        ba, A = head(A)
        bb, B = head(B)
        if ba is None or bb is None:
            continue
        if isinstance(ba, int) and isinstance(bb, int):
            if ba != bb:
                return False
        elif not same(ba, bb):
            conj.append(zi(ba) == zi(bb))
    if not conj:
        return True
    return mkbool(z3.And(*conj))


def small_len(x, y):
    for s in (x, y):
        if isinstance(s.n, int) and s.n <= 64:
            return s.n
    return None


def sum_len(segs):
    n = 0
    for s in segs:
        n = n + s.n
    return simp(n)


def drop_empty(segs):
    segs = list(segs)
    p = P()
    while segs:
        n = segs[0].n
        if isinstance(n, int):
            if n <= 0:
                segs.pop(0)
                continue
            return segs
        if isinstance(segs[0], Hdr):
            return segs
        if p.must(n == 0):
            segs.pop(0)
            continue
        return segs
    return segs


def opaque_eq(A, B):
    """identity-based equality of two single opaque pieces"""
    if len(A) == 1 and len(B) == 1 and isinstance(A[0], Sub) and isinstance(B[0], Sub):
        x, y = A[0], B[0]
        o = x.a.cidf(zi(x.off), zi(x.n)) == y.a.cidf(zi(y.off), zi(y.n))
        p = P()
        for k in p.__dict__.get("interest", ()):
            p.add(z3.Implies(z3.And(o, zi(x.n) == zi(y.n), zi(k) >= 0, zi(k) < zi(x.n)),
                             x.a.byte(simp(zi(x.off) + zi(k))) == y.a.byte(simp(zi(y.off) + zi(k)))))
        return o
    return None


MAXFOLD = 20


def from_bytes(v, order, signed):
    p = P()
    n = blen(v)
    segs = list(rope(v))
    if order == "little":
        if not isinstance(n, int):
            raise Unsupported("little-endian of symbolic length")
        bs = []
        while segs:
            b, segs = head(segs)
            if b is None:
                break
            bs.append(b)
        segs = [Byt(b) if not isinstance(b, int) else Lit(bytes([b])) for b in bs[::-1]]
    if not isinstance(n, int) and not (len(segs) == 1 and isinstance(segs[0], Sub)):
        if p.must(zi(n) <= MAXFOLD):
            n = p.concretize(n, 0, MAXFOLD, "length")
    if isinstance(n, int) and n <= MAXFOLD:
        t = 0
        first = None
        for k in range(n):
            b, segs = head(segs)
            if first is None:
                first = b
            t = t * 256 + b
        t = simp(t)
        if not signed or n == 0:
            return mkint(t)
        if p.branch(zi(first) >= 128):
            return mkint(t - 256 ** n)
        return mkint(t)
    if len(segs) == 1 and isinstance(segs[0], Sub):
        s = segs[0]
        f = s.a.sf if signed else s.a.uf
        t = f(zi(s.off), zi(s.n))
        uint_facts(s.a, s.off, s.n)
        if signed:
            u = s.a.uf(zi(s.off), zi(s.n))
            b0 = s.a.byte(s.off)
            p.add(z3.Implies(zi(s.n) == 0, t == 0))
            p.add(z3.Implies(z3.And(zi(s.n) > 0, b0 < 128), t == u))
            p.add(z3.Implies(z3.And(zi(s.n) > 0, b0 >= 128), t < 0))
            for k in (1, 2, 3, 4, 5, 8, 9):
                p.add(z3.Implies(z3.And(zi(s.n) == k, b0 >= 128), t == u - 256 ** k))
                p.add(z3.Implies(zi(s.n) <= k, z3.And(t >= -(256 ** k) // 2, t < 256 ** k // 2)))
        return mkint(t)
    p.precise = False
    t = p.int("frombytes")
    if not signed:
        p.add(t >= 0)
    return mkint(t)


def uint_facts(a, off, n):
    """facts about the big-endian value of a[off:off+n]"""
    p = P()
    t = a.uf(zi(off), zi(n))
    p.add(t >= 0)
    p.add(z3.Implies(zi(n) == 0, t == 0))
    for k in (1, 2, 4, 8):
        p.add(z3.Implies(zi(n) <= k, t < 256 ** k))
    return t


def uint_step(a, off, n):
    """unfolding at the end: uint(off, n+1) == uint(off, n)*256 + byte(off+n)"""
    p = P()
    p.add(z3.Implies(zi(n) >= 0,
                     a.uf(zi(off), zi(simp(n + 1))) ==
                     a.uf(zi(off), zi(n)) * 256 + a.byte(simp(off + n))))


def many_bytes(t, n, raise_):
    """t in n octets, big-endian, for any n"""
    from .lib import bit_length, bitlen_facts
    p = P()
    if not p.branch(zi(t) >= 0):
        raise_(OverflowError, "can't convert negative int to unsigned")
    k = zi(bit_length(t))
    if not isinstance(t, int):
        bitlen_facts(p, k)
    if not p.branch(k <= 8 * n):
        raise_(OverflowError, "int too big to convert")
    a = Atom(p.fresh_name("octets"), n)
    p.ex.keep.append(a)
    p.add(uint_facts(a, 0, n) == zi(t))
    p.add(z3.Implies(n >= 1, (a.byte(0) != 0) == (k > 8 * (n - 1))))
    if p.branch(n >= 1):
        uint_step(a, 0, simp(n - 1))
        uint_facts(a, 0, simp(n - 1))
    return mkbytes([Sub(a, 0, n)])


def to_bytes(t, n, order, signed, raise_):
    p = P()
    n = simp(n)
    t = simp(t)
    if not isinstance(n, int):
        if not p.must(zi(n) <= MAXFOLD) and not signed and order == "big" and p.branch(zi(n) >= 0):
            return many_bytes(t, n, raise_)
        n = p.concretize(n, 0, MAXFOLD, "to_bytes length")
    if n < 0:
        raise_(ValueError, "length argument must be non-negative")
    if isinstance(t, int):
        try:
            return t.to_bytes(n, order, signed=signed)
        except OverflowError as e:
            raise_(OverflowError, *e.args)
    if signed:
        lo, hi = -(256 ** n // 2), 256 ** n // 2
        if n == 0:
            lo, hi = 0, 1
    else:
        lo, hi = 0, 256 ** n
    if not p.branch(z3.And(t >= lo, t < hi)):
        raise_(OverflowError, "int too big to convert")
    if signed and p.branch(t < 0):
        t = t + 256 ** n
    ds = digits(simp(t), n) if n else []
    if order == "little":
        ds = ds[::-1]
    return mkbytes(ds)
