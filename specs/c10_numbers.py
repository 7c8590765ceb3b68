"""C10: generated identifiers run through all n-bit numbers, zero last."""
from pyvc.api import *
from pyvc.gens import *

from snmp.utils import NumberGenerator
from specs import stdlib

PROPERTY = "C10"

TRUSTED = [stdlib.RANDOM_TRUST]
SIZES = (8, 31, 32, 64)


def invariants(I, info, G, H, changing, fixed):
    """the value stays in the window below `wrap`, and is congruent to the ghost sum"""
    import itertools
    from pyvc.core import zi
    out = []
    for l in changing:
        for a, b in itertools.permutations(list(fixed), 2):
            out.append((f"{l.name}>{a}-{b}", lambda v, l=l, a=fixed[a], b=fixed[b]:
                        zi(v[l.name]) > zi(a) - zi(b)))
    for a, b in itertools.combinations(changing, 2):
        for n in SIZES:
            out.append((f"{a.name}={b.name} mod 2**{n}", lambda v, a=a, b=b, n=n:
                        (zi(v[a.name]) - zi(v[b.name])) % (2 ** n) == 0))
    return out


OPTS = {"models": stdlib.randoms, "providers": [invariants]}


@theorem(OPTS, n=Choice(*SIZES), signed=Bool(), k=Int(0, 40))
def arithmetic_progression(n, signed, k):
    """after any number of calls, the values are i * first modulo 2**n, inside the range"""
    g = NumberGenerator(n, signed)
    first = next(g)
    lo, hi = (-2 ** (n - 1), 2 ** (n - 1) - 1) if signed else (0, 2 ** n - 1)
    check("first is odd", first % 2 == 1)
    check("first in range", lo <= first <= hi)
    total = first
    for _ in range(k):
        next(g)
        total = total + first
    value = next(g)
    total = total + first
    check("range", lo <= value <= hi)
    check("progression", (value - total) % 2 ** n == 0)
    cover("end")


@theorem(power=Int(1), k=Int(0), half=Int(0), m=Int())
def halving_step(power, k, half, m):
    """if 2 * power divides k * odd, then k is even and power divides (k / 2) * odd;
    n such steps from power = 2**n: k * odd = 0 modulo 2**n only if 2**n divides k"""
    odd = 2 * half + 1
    m = k * odd // (2 * power) if m == 0 else m
    assume(k * odd == 2 * power * m)
    check("even", k % 2 == 0)
    h = k // 2
    check("half", h * odd == power * m)
    cover("end")


@theorem({"models": stdlib.randoms}, n=Choice(*SIZES), signed=Bool())
def iterator(n, signed):
    g = NumberGenerator(n, signed)
    check("iterator", iter(g) is g)
