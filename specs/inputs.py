"""Inputs shared by the specifications: any value, any variable bindings."""
from pyvc.api import *
from pyvc.gens import *

from snmp.ber import Tag, encode
from snmp.pdu import *
from snmp.smi import *

INTS = ((Integer, -2 ** 31, 2 ** 31 - 1), (Counter32, 0, 2 ** 32 - 1),
        (Gauge32, 0, 2 ** 32 - 1), (TimeTicks, 0, 2 ** 32 - 1), (Counter64, 0, 2 ** 64 - 1))
EMPTY = (Null, NoSuchObject, NoSuchInstance, EndOfMibView)
KINDS = ("int", "octets", "opaque", "oid", "empty")
SUBIDS = Tup(Int(0, 2), Int(0, 39), List(Int(0, 2 ** 32 - 1), maxlen=126))
VALUE = Tup(Choice(*KINDS), Choice(*INTS), Int(-2 ** 31, 2 ** 64 - 1), Bytes(0, 0xffff), SUBIDS, Choice(*EMPTY))


def oid(ids):
    first, second, rest = ids
    return OID(first, second, *rest)


def value(v):
    """any value an SNMP variable can have"""
    kind, (cls, lo, hi), n, data, ids, empty = v
    if kind == "int":
        assume(lo <= n <= hi)
        return cls(n)
    if kind == "octets":
        return OctetString(data)
    if kind == "opaque":
        return Opaque(data)
    if kind == "oid":
        return oid(ids)
    return empty()


BINDING = Valid(VarBind, Tup(SUBIDS, VALUE), lambda x: VarBind(oid(x[0]), value(x[1])))


BINDINGS = Valid(VarBindList, List(Tup(SUBIDS, VALUE)), lambda xs: VarBindList(*[VarBind(oid(i), value(v))
                                                                                 for i, v in xs]))
I32 = Int(-2 ** 31, 2 ** 31 - 1, edges=(0, 1, -1, 127, 128, 255, 256, 2 ** 31 - 1))


def layout(tag, *parts):
    """one value after the other"""
    return encode(tag, b"".join([p.encode() for p in parts]))
