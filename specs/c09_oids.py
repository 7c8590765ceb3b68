"""C09: OID text form, prefixes, order, and limits."""
from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import OBJECT_IDENTIFIER
from snmp.ber import ParseError
from snmp.smi import OID
from specs import contracts

PROPERTY = "C09"

SUB = Int(0, 2 ** 32 - 1)
NUMBERS = dict(first=Int(0, 2), second=Int(0, 39), more=List(SUB, maxlen=126))
ANYNUM = Int(-2 ** 40, 2 ** 40, edges=(-1, 0, 2, 3, 39, 40, 2 ** 32 - 1, 2 ** 32))


@theorem(nums=List(ANYNUM))
def limits(nums):
    """at most 128 sub-identifiers of 32 bits; first below 3, second below 40"""
    bad = len(nums) > 128 or any(n < 0 or n >= 2 ** 32 for n in nums)
    if len(nums) > 0 and nums[0] > 2 or len(nums) > 1 and nums[1] > 39:
        bad = True
    try:
        oid = OID(*nums)
    except ValueError:
        check("valid sub-identifiers are accepted", bad)
        return
    check("invalid sub-identifiers are refused", not bad)
    check("kept", oid.subidentifiers == nums)
    check("length", len(oid) == len(nums))
    check("iteration", tuple(oid) == nums)
    cover("accepted")


@theorem(**NUMBERS)
def text_round_trip(first, second, more):
    oid = OID(first, second, *more)
    check("parse", OID.parse(str(oid)) == oid)
    check("class", type(OID.parse(str(oid))) is OID)
    check("leading dot", OID.parse("." + str(oid)) == oid)
    cover("end")


@theorem(**NUMBERS, tail=List(SUB))
def extension_has_prefix(first, second, more, tail):
    oid = OID(first, second, *more)
    try:
        longer = oid.extend(*tail)
    except ValueError:
        check("only the size limit refuses", len(more) + len(tail) > 126)
        return
    check("starts with", longer.startswith(oid))
    check("class", type(longer) is OID)
    check("sub-identifiers", longer.subidentifiers == (first, second) + more + tail)
    check("slices", longer[2 + len(more):] == tail)
    check("proper", oid.startswith(longer) == (len(tail) == 0))
    cover("end")


@theorem(a=List(SUB, maxlen=100), b=List(SUB, maxlen=100))
def prefix_test(a, b):
    x, y = OID(1, 3, *a), OID(1, 3, *b)
    check("prefix", x.startswith(y) == (a[:len(b)] == b))


@theorem(a=List(SUB, maxlen=100), b=List(SUB, maxlen=100))
def order_and_equality(a, b):
    x, y = OID(1, 3, *a), OID(1, 3, *b)
    check("equality", (x == y) == (a == b))
    check("order", (x < y) == (a < b))
    if x == y:
        check("hash", hash(x) == hash(y))
        cover("equal")


@theorem(a=List(SUB, maxlen=4), b=List(SUB, maxlen=4), c=List(SUB, maxlen=4))
def order_is_total(a, b, c):
    x, y, z = OID(1, 3, *a), OID(1, 3, *b), OID(1, 3, *c)
    check("irreflexive", not (x < x))
    check("trichotomy", (x < y) + (x == y) + (y < x) == 1)
    if x < y and y < z:
        check("transitive", x < z)
        cover("chain")
