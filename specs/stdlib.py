"""Assumed contracts of external (standard library) functions."""
import random
import socket

import z3
from pyvc.core import Unsupported, simp, zi
from pyvc.values import *
from pyvc import bytesops as B
from pyvc.api import AssumeFailed
from snmp.utils import NumberGenerator

INT = z3.IntSort()
ATON = [z3.Function(f"aton{i}", INT, INT) for i in range(4)]
VALID = z3.Function("aton.valid", INT, z3.BoolSort())
NTOA = z3.Function("ntoa", INT, INT, INT, INT, INT)


def inet_aton(I, s):
    """4 bytes determined by the text, or OSError"""
    if isinstance(s, str):
        return I.native_call(socket.inet_aton, [s], {})
    if not isinstance(s, SStr):
        I.raise_(TypeError, "inet_aton() argument must be str")
    if not I.p.branch(VALID(s.t)):
        I.raise_(OSError, "illegal IP address string passed to inet_aton")
    bs = [f(s.t) for f in ATON]
    for b in bs:
        I.p.add(z3.And(b >= 0, b <= 255))
    return mkbytes([Byt(b) for b in bs])


def inet_ntoa(I, b):
    """text that inet_aton maps back to the 4 bytes; OSError for any other length"""
    if isinstance(b, bytes):
        return I.native_call(socket.inet_ntoa, [b], {})
    n = blen(b)
    if not I.p.branch(zi(n) == 4):
        I.raise_(OSError, "packed IP wrong length")
    bs = [zi(it(B.index(b, i))) for i in range(4)]
    t = NTOA(*bs)
    I.p.add(VALID(t))
    I.p.add(t >= 0)
    for f, x in zip(ATON, bs):
        I.p.add(f(t) == x)
    return SStr(t)


def network():
    return {socket.inet_aton: inet_aton, socket.inet_ntoa: inet_ntoa}


NETWORK_TRUST = "socket.inet_aton / inet_ntoa: aton gives 4 bytes or OSError; aton(ntoa(b)) == b"


# -- random -----------------------------------------------------------------

def randint(I, lo, hi):
    a, b = it(lo), it(hi)
    if isinstance(a, int) and isinstance(b, int) and a > b:
        I.raise_(ValueError, "empty range")
    v = I.p.int("randint")
    I.p.add(z3.And(v >= zi(a), v <= zi(b)))
    return mkint(v)


def randrange(I, lo, hi=None, step=1):
    if hi is None:
        lo, hi = 0, lo
    a, b, s = it(lo), it(hi), it(step)
    if not isinstance(s, int) or s < 1:
        raise Unsupported("randrange with a negative or symbolic step")
    k = I.p.int("randrange")
    v = zi(a) + k * s
    I.p.add(z3.And(k >= 0, v < zi(b)))
    return mkint(simp(v))


def getrandbits(I, n):
    n = it(n)
    if not isinstance(n, int):
        raise Unsupported("getrandbits with a symbolic size")
    return mkint(I.p.int("randbits", lo=0, hi=2 ** n - 1))


def randoms():
    import random
    import secrets
    return {random.randint: randint, random.randrange: randrange, random.getrandbits: getrandbits,
            secrets.randbits: getrandbits, secrets.randbelow: randrange}


RANDOM_TRUST = "random.randint, randrange, getrandbits: any integer of the range"


# -- socket.inet_pton: a text is an address of the family or not --------------------

PTON = {f: z3.Function(f"pton.{int(f)}", INT, z3.BoolSort()) for f in (socket.AF_INET, socket.AF_INET6)}


def inet_pton(I, family, s):
    """OSError unless the text is an address of the family; TypeError unless it is a text"""
    if isinstance(s, SStr):
        p = I.p
        f = PTON.get(family)
        if f is None:
            raise Unsupported(f"address family {family!r}")
        p.add(z3.Not(f(z3.IntVal(str_id("")))))
        if not p.branch(f(s.t)):
            I.raise_(OSError, "illegal IP address string passed to inet_pton")
        return mkbytes([Sub(Atom(p.fresh_name("packed"), 4 if family == socket.AF_INET else 16), 0,
                            4 if family == socket.AF_INET else 16)])
    if isinstance(s, str):
        f = PTON.get(family)
        try:
            socket.inet_pton(family, s)
            ok = True
        except (OSError, ValueError):
            ok = False
        if f is not None:
            I.p.add(f(z3.IntVal(str_id(s))) == ok)
        return I.native_call(socket.inet_pton, [family, s], {})
    I.raise_(TypeError, "inet_pton() argument 2 must be str")


def addresses():
    return {socket.inet_pton: inet_pton}


PTON_TRUST = "socket.inet_pton(family, text): OSError exactly if the text is no address of the family, " \
             "TypeError for anything but text; the empty text is no address"


# -- the number generator (C10) as its contract: any number of the range --------------

LEFT = []
DRAWN = random.Random(0)
REAL_NEXT = NumberGenerator.__next__


def next_number(self):
    lo, hi = self.wrap - self.range + 1, self.wrap
    if LEFT:
        v = LEFT.pop(0)
        if not lo <= v <= hi:
            raise AssumeFailed()
        return v
    return DRAWN.randint(lo, hi)


def numbers(draws):
    """the next numbers that generators give are those of draws, then any (see C10)"""
    LEFT[:] = draws
    DRAWN.seed(repr(draws))
    NumberGenerator.__next__ = next_number


def m_numbers(I, draws):
    I.p.__dict__["draws"] = list(I.items_of(draws))


def c_next(I, args, kwargs):
    (gen,) = args
    p = I.p
    rng, wrap = zi(it(I.getattr(gen, "range"))), zi(it(I.getattr(gen, "wrap")))
    left = p.__dict__.setdefault("draws", [])
    pos = p.__dict__.get("drawn", 0)
    if pos < len(left):
        v = left[pos]
        p.__dict__["drawn"] = pos + 1
    else:
        v = mkint(p.int("number"))
    t = zi(it(v))
    p.add(z3.And(t >= wrap - rng + 1, t <= wrap))
    return v


def numbering():
    return {REAL_NEXT: c_next, next_number: c_next}
