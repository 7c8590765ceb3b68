"""C06: SMI integer ranges and two's complement encoding."""
from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import INTEGER
from snmp.ber import ParseError, Tag
from snmp.smi import *
from snmp.utils import subbytes

PROPERTY = "C06"

RANGES = (
    (Integer32, -2 ** 31, 2 ** 31 - 1, 0x02),
    (Unsigned32, 0, 2 ** 32 - 1, 0x42),
    (Counter32, 0, 2 ** 32 - 1, 0x41),
    (Gauge32, 0, 2 ** 32 - 1, 0x42),
    (TimeTicks, 0, 2 ** 32 - 1, 0x43),
    (Counter64, 0, 2 ** 64 - 1, 0x46),
)
EDGES = tuple(s * (1 << b) + d for b in (0, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64)
              for s in (1, -1) for d in (-2, -1, 0, 1))
ANY = Int(-2 ** 70, 2 ** 70, edges=EDGES)


@theorem(t=Choice(*RANGES), v=Int(edges=EDGES))
def range_enforced(t, v):
    cls, lo, hi, _ = t
    try:
        obj = cls(v)
    except ValueError:
        check("in range values are accepted", v < lo or v > hi)
        return
    check("out of range values are refused", lo <= v <= hi)
    check("value", obj.value == v)
    cover("accepted")


@theorem(t=Choice(*RANGES), v=ANY)
def encoding_is_minimal_twos_complement(t, v):
    cls, lo, hi, tag = t
    assume(lo <= v <= hi)
    wire = cls(v).encode()
    n = len(wire) - 2
    check("tag", wire[0] == tag)
    check("length", wire[1] == n)
    body = wire[2:]
    check("value", int.from_bytes(body, "big", signed=True) == v)
    check("at least one octet", n >= 1)
    if n > 1:
        # X.690 8.3.2: the first nine bits are neither all ones nor all zeros
        check("minimal, positive", not (body[0] == 0 and body[1] < 0x80))
        check("minimal, negative", not (body[0] == 0xff and body[1] >= 0x80))
        cover("long")


@theorem(t=Choice(*RANGES), body=Bytes(minlen=1, maxlen=12))
def decoding_any_body(t, body):
    cls, lo, hi, tag = t
    v = int.from_bytes(body, "big", signed=True)
    wire = bytes([tag, len(body)]) + body
    try:
        obj = cls.decode(wire)
    except ParseError:
        check("in range values are decoded", v < lo or v > hi)
        return
    check("out of range values are refused", lo <= v <= hi)
    check("value", obj.value == v)
    check("type", type(obj) is cls)
    cover("decoded")


@theorem(t=Choice(*RANGES), u=Choice(*RANGES), v=ANY, w=ANY)
def equality(t, u, v, w):
    a, lo, hi, tag_a = t
    b, lo2, hi2, tag_b = u
    assume(lo <= v <= hi and lo2 <= w <= hi2)
    check("equal iff same tag and value", (a(v) == b(w)) == (tag_a == tag_b and v == w))


@theorem(v=Int(-2 ** 64, 2 ** 64, edges=EDGES), rest=Bytes())
def plain_integer(v, rest):
    obj, tail = INTEGER.decode(INTEGER(v).encode() + rest, leftovers=True)
    check("value", obj.value == v)
    check("tail", tail[:] == rest)
