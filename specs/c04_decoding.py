"""C04: decoding arbitrary bytes either gives a value or raises a decoding error."""
from pyvc.api import *
from pyvc.gens import *

from snmp.exception import IncomingMessageError
from snmp.message import Message
from snmp.message.v3 import *
from snmp.message.v3 import pduTypes
from snmp.message.version import VersionOnlyMessage
from snmp.pdu import *
from snmp.pdu import VarBind, VarBindList
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import *
from snmp.smi import BoundedInteger
from snmp.utils import subbytes
from specs import contracts, stdlib
from specs import encoded as e

PROPERTY = "C04"
TRUSTED = [stdlib.NETWORK_TRUST]
LEAVES = (Integer32, Unsigned32, Counter32, Gauge32, TimeTicks, Counter64, OctetString, IpAddress, Opaque, Null, OID,
          NoSuchObject, NoSuchInstance, EndOfMibView, MessageFlags)
NETWORK = {"models": stdlib.network}
OPTS = {"contracts": contracts.anyframes, **NETWORK}
VARBIND = {"contracts": lambda: contracts.anyvalues(OID), **NETWORK}
PDUS = (GetRequestPDU, GetNextRequestPDU, ResponsePDU, SetRequestPDU, GetBulkRequestPDU, InformRequestPDU, SNMPv2TrapPDU, ReportPDU)
PDU_OPTS = {"contracts": lambda: contracts.anyvalues(Integer32, VarBindList), "split": ("cls",)}
MESSAGE = {"contracts": lambda: contracts.anyvalues(Integer32, *PDUS)}
V3 = {"contracts": lambda: contracts.anyvalues(Integer32, ScopedPDU)}
LIST = {"contracts": lambda: contracts.anyvalues(VarBind)}


def total(cls, data, leftovers, copy, **kw):
    """the value and what is left over, or nothing"""
    try:
        got = cls.decode(data, leftovers, copy, **kw)
    except IncomingMessageError:
        return None
    value, tail = got if leftovers else (got, b"")
    check("type", type(value) is cls)
    check("rest", len(tail) + 2 <= len(data) and data[len(data) - len(tail):] == tail[:])
    return value


@theorem({**OPTS, "split": ("cls",)}, cls=Choice(*LEAVES), data=e.Encoded(e.value, e.oid, e.string, e.number), leftovers=Bool(), copy=Bool())
def leaf(cls, data, leftovers, copy):
    value = total(cls, data, leftovers, copy)
    if value is None:
        return
    if isinstance(value, BoundedInteger):
        lo, hi = (-2 ** (cls.BITS - 1), 2 ** (cls.BITS - 1)) if cls.SIGNED else (0, 2 ** cls.BITS)
        check("range", lo <= value.value < hi)
    elif isinstance(value, OctetString) and cls is OctetString:
        check("limit", len(value.data) <= 65535)
    elif isinstance(value, IpAddress):
        check("four octets", len(value.data) == 4)
    cover("value")


@theorem({**OPTS, "split": ("cls",)}, cls=Choice(*LEAVES), data=e.Encoded(lambda rng: e.value(rng)[2:]), view=Bool())
def body(cls, data, view):
    """the same for the content alone"""
    try:
        value = cls.deserialize(subbytes(data) if view else data)
    except IncomingMessageError:
        return
    check("type", type(value) is cls)
    cover("value")


@theorem(VARBIND, data=e.Encoded(e.varbind), leftovers=Bool(), copy=Bool())
def varbind(data, leftovers, copy):
    if total(VarBind, data, leftovers, copy) is not None:
        cover("value")


@theorem(LIST, data=e.Encoded(e.bindings), leftovers=Bool(), copy=Bool())
def bindings(data, leftovers, copy):
    if total(VarBindList, data, leftovers, copy) is not None:
        cover("value")


@theorem(PDU_OPTS, cls=Choice(*PDUS), data=e.Encoded(e.pdu), leftovers=Bool(), copy=Bool())
def pdu(cls, data, leftovers, copy):
    value = total(cls, data, leftovers, copy)
    if value is None:
        return
    if cls is GetBulkRequestPDU:
        check("bulk", 0 <= value.nonRepeaters < 2 ** 31 and 0 <= value.maxRepetitions < 2 ** 31)
    else:
        check("status", type(value.errorStatus) is ErrorStatus)
        check("index", value.errorIndex <= len(value.variableBindings))
    check("requestID", -2 ** 31 <= value.requestID < 2 ** 31)
    cover("value")


@theorem({**MESSAGE, "split": ("cls",)}, cls=Choice(VersionOnlyMessage, HeaderData, UsmSecurityParameters), data=e.Encoded(e.message, e.header, e.security), leftovers=Bool(), copy=Bool())
def parts(cls, data, leftovers, copy):
    value = total(cls, data, leftovers, copy)
    if value is None:
        return
    if cls is HeaderData:
        check("header", 0 <= value.id < 2 ** 31 and 484 <= value.maxSize < 2 ** 31)
    elif cls is UsmSecurityParameters:
        check("times", 0 <= value.engineBoots < 2 ** 31 and 0 <= value.engineTime < 2 ** 31)
    cover("value")


@theorem(MESSAGE, data=e.Encoded(e.scoped), known=Bool(), leftovers=Bool(), copy=Bool())
def scoped(data, known, leftovers, copy):
    value = total(ScopedPDU, data, leftovers, copy, types=pduTypes if known else None)
    if value is None:
        return
    check("known PDU", known and type(value.pdu) in PDUS)
    cover("value")


@theorem(MESSAGE, data=e.Encoded(e.message), known=Bool(), leftovers=Bool(), copy=Bool())
def message(data, known, leftovers, copy):
    value = total(Message, data, leftovers, copy, types=pduTypes if known else None)
    if value is None:
        return
    check("known PDU", known and type(value.pdu) in PDUS)
    cover("value")


@theorem(V3, data=e.Encoded(e.v3message), leftovers=Bool(), copy=Bool())
def v3message(data, leftovers, copy):
    value = total(SNMPv3Message, data, leftovers, copy)
    if value is None:
        return
    check("either", (value.scopedPDU is None) == value.header.flags.privFlag and (value.encryptedPDU is None) != value.header.flags.privFlag)
    cover("value")


@theorem(OPTS, data=e.Encoded(e.v3message, e.security), signature=Bool())
def search(data, signature):
    """where the security parameters and the signature lie"""
    try:
        found = UsmSecurityParameters.findSignature(subbytes(data)) if signature else SNMPv3Message.findSecurityParameters(data)
    except IncomingMessageError:
        return
    check("inside", found.data == data and 0 <= found.start <= found.stop <= len(data))
    cover("found")
