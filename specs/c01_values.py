"""C01: every SMI value survives encode/decode."""
from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import NULL, OBJECT_IDENTIFIER
from snmp.ber import ParseError
from snmp.smi import *
from snmp.utils import subbytes
from specs import contracts, stdlib

PROPERTY = "C01"

TRUSTED = [stdlib.NETWORK_TRUST]

SIGNED = (Integer32, Integer)
INTS = ((Integer32, -2 ** 31, 2 ** 31 - 1), (Unsigned32, 0, 2 ** 32 - 1), (Counter32, 0, 2 ** 32 - 1),
        (Gauge32, 0, 2 ** 32 - 1), (TimeTicks, 0, 2 ** 32 - 1), (Counter64, 0, 2 ** 64 - 1))
EDGES = tuple(s * (1 << b) + d for b in (0, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64)
              for s in (1, -1) for d in (-2, -1, 0, 1))


TYPES = {Integer: 2, Integer32: 2, OctetString: 4, Null: 5, OID: 6, IpAddress: 0x40, Counter32: 0x41, Unsigned32: 0x42,
         Gauge32: 0x42, TimeTicks: 0x43, Opaque: 0x44, Counter64: 0x46}


def survives(obj, rest, copy):
    """the decoded value is equal, of the same class, and exactly its own bytes are consumed"""
    wire = obj.encode()
    check("type octet", wire[0] == TYPES[type(obj)])
    got = type(obj).decode(wire, copy=copy)
    check("value", got == obj)
    check("class", type(got) is type(obj))
    first, tail = type(obj).decode(wire + rest, leftovers=True, copy=copy)
    check("first value", first == obj)
    check("tail", tail[:] == rest)
    check("re-encoding", got.encode() == wire)
    return got


@theorem({"contracts": contracts.frames}, t=Choice(*INTS), v=Int(-2 ** 64, 2 ** 64, edges=EDGES), rest=Bytes(), copy=Bool())
def integers(t, v, rest, copy):
    cls, lo, hi = t
    assume(lo <= v <= hi)
    got = survives(cls(v), rest, copy)
    check("number", got.value == v)
    cover("end")


@theorem({"contracts": contracts.frames}, data=Bytes(maxlen=0xffff), rest=Bytes(), copy=Bool())
def octet_string(data, rest, copy):
    got = survives(OctetString(data), rest, copy)
    check("octets", got.data == data)
    cover("end")


@theorem({"contracts": contracts.frames}, data=Bytes(), rest=Bytes(), copy=Bool())
def opaque(data, rest, copy):
    got = survives(Opaque(data), rest, copy)
    check("octets", got.data == data)


@theorem(data=Bytes(minlen=0x10000))
def octet_string_limit(data):
    check("refused", raises(ValueError, OctetString, data))


ADDRESSES = ("0.0.0.0", "10.0.0.1", "127.1", "255.255.255.255", "1.2.3", "256.1.1.1", "x", "")


@theorem({"models": stdlib.network, "contracts": contracts.frames}, addr=Text(ADDRESSES), rest=Bytes(), copy=Bool())
def ip_address(addr, rest, copy):
    try:
        obj = IpAddress(addr)
    except ValueError:
        return
    got = survives(obj, rest, copy)
    check("octets", got.data == obj.data)
    check("four octets", len(got.data) == 4)
    cover("end")


@theorem({"models": stdlib.network, "contracts": contracts.frames}, octets=Bytes(minlen=4, maxlen=4), rest=Bytes())
def ip_address_octets(octets, rest):
    got, tail = IpAddress.decode(bytes([0x40, 4]) + octets + rest, leftovers=True)
    check("octets", got.data == octets)
    check("wire", got.encode() == bytes([0x40, 4]) + octets)
    check("tail", tail[:] == rest)


@theorem({"contracts": contracts.frames}, rest=Bytes(), copy=Bool())
def null(rest, copy):
    survives(Null(), rest, copy)


SUBIDS = dict(first=Int(0, 2), second=Int(0, 39),
              more=List(Int(0, 2 ** 32 - 1, edges=(127, 128, 16383, 16384)), maxlen=126))


@theorem({"contracts": contracts.frames}, **SUBIDS, copy=Bool())
def oid(first, second, more, copy):
    obj = OID(first, second, *more)
    got = OID.decode(obj.encode(), copy=copy)
    check("value", got == obj)
    check("class", type(got) is OID)
    check("sub-identifiers", got.subidentifiers == (first, second) + more)
    cover("end")


@theorem({"contracts": contracts.frames}, **SUBIDS, rest=Bytes(), copy=Bool())
def oid_followed(first, second, more, rest, copy):
    obj = OID(first, second, *more)
    got, tail = OID.decode(obj.encode() + rest, leftovers=True, copy=copy)
    check("value", got == obj)
    check("tail", tail[:] == rest)
    cover("end")


@theorem(v=Choice(0, 1, 39, 40, 79, 80, 119, 127), more=List(Int(0, 127), maxlen=1))
def oid_first_octet(v, more):
    """X.690 8.19.4: the first octet combines the first two sub-identifiers"""
    obj = OID(*OID.deserialize(bytes([v])).subidentifiers, *more) if v < 120 else None
    if obj is not None:
        check("octet", obj.serialize()[0] == v)
        check("pair", obj.subidentifiers[:2] == (v // 40, v % 40))
    else:
        check("refused", raises(ParseError, OID.deserialize, bytes([v])))


@theorem(n=Int(0, 2 ** 32 - 1, edges=(127, 128, 16383, 16384, 2 ** 21, 2 ** 28)))
def oid_subidentifier_octets(n):
    """X.690 8.19.2: base 128, most significant group first, fewest octets"""
    body = OID(1, 3, n).serialize()[1:]
    groups = [n // 128 ** k % 128 for k in (4, 3, 2, 1, 0)]
    if n < 2 ** 7:
        want = 1
    elif n < 2 ** 14:
        want = 2
    elif n < 2 ** 21:
        want = 3
    elif n < 2 ** 28:
        want = 4
    else:
        want = 5
    check("octets", len(body) == want)
    for k in range(want):
        more = 128 if k < want - 1 else 0
        check("group", body[k] == groups[5 - want + k] + more)
