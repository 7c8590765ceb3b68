"""C08: table indices: encoding into and decoding from object identifiers."""
from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.ber import ParseError
from snmp.smi import *
from specs import contracts, stdlib

PROPERTY = "C08"

TRUSTED = [stdlib.NETWORK_TRUST]
SUB = Int(0, 2 ** 32 - 1, edges=(0, 1, 2, 3, 39, 40, 255, 256))
MORE = List(SUB, maxlen=126)
OPTS = {"models": stdlib.network, "budget": 200}

INTS = ((Integer32, 2 ** 31 - 1), (Unsigned32, 2 ** 32 - 1), (TimeTicks, 2 ** 32 - 1),
        (Counter64, 2 ** 32 - 1))
BadPrefix = OBJECT_IDENTIFIER.BadPrefix
IndexDecodeError = OBJECT_IDENTIFIER.IndexDecodeError


def round_trip(prefix, size, values, types, implied):
    """size: the number of sub-identifiers of the index"""
    try:
        oid = prefix.withIndex(*values, implied=implied)
    except ValueError:
        check("refused only beyond 128 sub-identifiers", len(prefix) + size > 128)
        return
    check("starts with the prefix", oid.startswith(prefix))
    check("size", len(oid) == len(prefix) + size)
    check("class", type(oid) is OID)
    got = oid.decodeIndex(prefix, *types, implied=implied)
    check("number of values", len(got) == len(values))
    for have, want in zip(got, values):
        check("value", have == want)
        check("type", type(have) is type(want))
    cover("end")


@theorem(OPTS, more=MORE, t=Choice(*INTS), n=Int(0), implied=Bool())
def integer(more, t, n, implied):
    cls, hi = t
    assume(n <= hi)
    prefix = OID(1, 3, *more)
    round_trip(prefix, 1, (cls(n),), (cls,), implied)


@theorem(OPTS, more=MORE, n=Int(-2 ** 31, -1))
def negative_integer_refused(more, n):
    check("refused", raises(ValueError, OID(1, 3, *more).withIndex, Integer32(n)))


@theorem(OPTS, more=MORE, data=Bytes(maxlen=200), implied=Bool())
def string(more, data, implied):
    prefix = OID(1, 3, *more)
    size = len(data) + (0 if implied else 1)
    round_trip(prefix, size, (OctetString(data),), (OctetString,), implied)


@theorem(OPTS, more=MORE, first=Int(0, 2), second=Int(0, 39), tail=List(SUB, maxlen=126), implied=Bool())
def identifier(more, first, second, tail, implied):
    prefix = OID(1, 3, *more)
    size = len(tail) + (2 if implied else 3)
    round_trip(prefix, size, (OID(first, second, *tail),), (OID,), implied)


@theorem(OPTS, more=MORE, octets=Bytes(minlen=4, maxlen=4), implied=Bool())
def address(more, octets, implied):
    prefix = OID(1, 3, *more)
    round_trip(prefix, 4, (IpAddress.construct(octets),), (IpAddress,), implied)


@theorem(OPTS, more=MORE, implied=Bool())
def null(more, implied):
    round_trip(OID(1, 3, *more), 0, (Null(),), (Null,), implied)


@theorem(OPTS, more=MORE, a=Bytes(maxlen=200), n=Int(0, 2 ** 32 - 1), octets=Bytes(minlen=4, maxlen=4),
         b=Bytes(maxlen=200), implied=Bool())
def several(more, a, n, octets, b, implied):
    prefix = OID(1, 3, *more)
    size = len(a) + 1 + 1 + 4 + len(b) + (0 if implied else 1)
    round_trip(prefix, size, (OctetString(a), Unsigned32(n), IpAddress.construct(octets), OctetString(b)),
               (OctetString, Unsigned32, IpAddress, OctetString), implied)


@theorem(OPTS, a=List(SUB, maxlen=10), first=Int(0, 2), second=Int(0, 39), b=List(SUB, maxlen=10), implied=Bool())
def nested_identifiers(a, first, second, b, implied):
    size = len(a) + 3 + len(b) + (2 if implied else 3)
    round_trip(OID(1, 3), size, (OID(1, 3, *a), OID(first, second, *b)), (OID, OID), implied)


TYPES = (Integer32, Unsigned32, Counter64, OctetString, IpAddress, OID, Null)


def decode_any(prefix, rest, types, implied):
    """decoding either fails with the documented errors, or inverts the encoding"""
    oid = prefix.extend(*rest)
    try:
        got = oid.decodeIndex(prefix, *types, implied=implied)
    except IndexDecodeError:
        return
    check("number of values", len(got) == len(types))
    for have, cls in zip(got, types):
        check("type", type(have) is cls)
    check("inverse", prefix.withIndex(*got, implied=implied) == oid)
    cover("decoded")


@theorem(OPTS, rest=List(SUB, maxlen=100), t=Choice(*TYPES), implied=Bool())
def decode_one(rest, t, implied):
    decode_any(OID(1, 3), rest, (t,), implied)


@theorem(OPTS, rest=List(SUB, maxlen=100), t=Choice(OctetString, OID, IpAddress, Integer32),
         u=Choice(OctetString, OID, IpAddress, Unsigned32), implied=Bool())
def decode_two(rest, t, u, implied):
    decode_any(OID(1, 3), rest, (t, u), implied)


@theorem(OPTS, rest=List(SUB, maxlen=100))
def decode_none(rest):
    prefix = OID(1, 3)
    oid = prefix.extend(*rest)
    try:
        got = oid.decodeIndex(prefix)
    except IndexDecodeError:
        check("leftover sub-identifiers", len(rest) > 0)
        return
    check("nothing left", len(rest) == 0 and got == ())


@theorem(OPTS, a=List(SUB, maxlen=100), b=List(SUB, maxlen=100), t=Choice(*TYPES))
def wrong_prefix(a, b, t):
    oid, prefix = OID(1, 3, *a), OID(1, 3, *b)
    try:
        oid.decodeIndex(prefix, t)
    except BadPrefix:
        check("refused only without the prefix", not oid.startswith(prefix))
        return
    except IndexDecodeError:
        pass
    check("accepted only with the prefix", oid.startswith(prefix))


@theorem(OPTS, more=List(SUB, maxlen=100), n=Int(0, 2 ** 32 - 1), implied=Bool())
def get_index(more, n, implied):
    prefix = OID(1, 3, *more)
    got = prefix.extend(n).getIndex(prefix, Unsigned32, implied=implied)
    check("value", got == Unsigned32(n))
    check("default type", n > 2 ** 31 - 1 or prefix.extend(n).getIndex(prefix) == Integer(n))
