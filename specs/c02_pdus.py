"""C02: variable bindings, PDUs and community messages survive encoding and decoding."""
from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import ASN1
from snmp.ber import ParseError
from snmp.message import Message, ProtocolVersion
from snmp.message.version import VersionOnlyMessage
from snmp.pdu import *
from snmp.smi import *
from snmp.utils import subbytes
from specs import contracts
from specs.inputs import *

PROPERTY = "C02"
LIST = {"contracts": contracts.bindings}
OPTS = {"contracts": contracts.values}

@theorem(OPTS, ids=SUBIDS, v=VALUE, rest=Bytes())
def varbind(ids, v, rest):
    vb = VarBind(oid(ids), value(v))
    wire = vb.encode()
    check("layout", wire == layout(Sequence.TAG, oid(ids), value(v)))
    got, tail = VarBind.decode(wire + rest, leftovers=True)
    check("equal", got == vb)
    check("name", got.name == vb.name)
    check("type of value", type(got.value) is type(vb.value))
    check("value", got.value == vb.value)
    check("tail", tail[:] == rest)
    cover("end")


@theorem(LIST, vbs=List(BINDING), rest=Bytes())
def varbind_list(vbs, rest):
    """any number of variable bindings, each as in the theorem above"""
    wire = VarBindList(*vbs).encode()
    got, tail = VarBindList.decode(wire + rest, leftovers=True)
    check("length", len(got) == len(vbs))
    check("equal", got == VarBindList(*vbs))
    check("truth", bool(got) == (len(vbs) > 0))
    check("tail", tail[:] == rest)
    cover("end")


NUMBERS = {GetRequestPDU: 0, GetNextRequestPDU: 1, ResponsePDU: 2, SetRequestPDU: 3, GetBulkRequestPDU: 5,
           InformRequestPDU: 6, SNMPv2TrapPDU: 7, ReportPDU: 8}
PDUS = (GetRequestPDU, GetNextRequestPDU, ResponsePDU, SetRequestPDU, InformRequestPDU, SNMPv2TrapPDU, ReportPDU)


def survives(obj, rest):
    wire = obj.encode()
    got, tail = type(obj).decode(wire + rest, leftovers=True)
    check("equal", got == obj)
    check("type", type(got) is type(obj))
    check("tail", tail[:] == rest)
    check("re-encoding", got.encode() == wire)
    check("type octet", wire[0] == 0xa0 + NUMBERS[type(obj)])
    return got


@theorem(LIST, cls=Choice(*PDUS), rid=I32, n=Int(0, 18), index=I32, vbs=BINDINGS, rest=Bytes())
def pdu(cls, rid, n, index, vbs, rest):
    """every field comes back; an error index outside of the bindings is refused"""
    status = ErrorStatus(n)
    obj = cls(requestID=rid, errorStatus=status, errorIndex=index, variableBindings=vbs)
    if index > len(vbs) or index < 0 and status != ErrorStatus.noError:
        check("error index", raises(ParseError, cls.decode, obj.encode()))
        return
    check("layout", obj.encode() == layout(cls.TAG, Integer(rid), Integer(n), Integer(index), vbs))
    got = survives(obj, rest)
    check("requestID", got.requestID == rid)
    check("errorStatus", got.errorStatus == status and type(got.errorStatus) is ErrorStatus)
    check("errorIndex", got.errorIndex == index)
    check("variableBindings", got.variableBindings == vbs)
    cover("end")


@theorem(LIST, rid=I32, n=I32, m=I32, vbs=BINDINGS, rest=Bytes())
def bulk(rid, n, m, vbs, rest):
    obj = GetBulkRequestPDU(requestID=rid, nonRepeaters=n, maxRepetitions=m, variableBindings=vbs)
    if n < 0 or m < 0:
        check("negative", raises(ParseError, GetBulkRequestPDU.decode, obj.encode()))
        return
    check("layout", obj.encode() == layout(obj.TAG, Integer(rid), Integer(n), Integer(m), vbs))
    got = survives(obj, rest)
    check("requestID", got.requestID == rid)
    check("nonRepeaters", got.nonRepeaters == n)
    check("maxRepetitions", got.maxRepetitions == m)
    check("variableBindings", got.variableBindings == vbs)
    cover("end")


@theorem(LIST, cls=Choice(*PDUS), rid=I32, status=Int(0, 2 ** 31 - 1), vbs=BINDINGS)
def error_status(cls, rid, status, vbs):
    """an error status that is not defined is refused"""
    wire = cls(requestID=rid, errorStatus=status, variableBindings=vbs).encode()
    try:
        got = cls.decode(wire)
    except ParseError:
        check("undefined", status > 18)
        return
    check("defined", status <= 18 and got.errorStatus == status)
    cover("end")


@theorem(LIST, version=Choice(ProtocolVersion.SNMPv1, ProtocolVersion.SNMPv2c), community=Bytes(0, 0xffff), vbs=BINDINGS,
         cls=Choice(GetBulkRequestPDU, *PDUS), rid=I32, rest=Bytes())
def message(version, community, cls, rid, vbs, rest):
    types = {c.TAG: c for c in (GetBulkRequestPDU,) + PDUS}
    obj = Message(version, community, cls(requestID=rid, variableBindings=vbs))
    wire = obj.encode()
    check("layout", wire == layout(Sequence.TAG, Integer(version), OctetString(community), obj.pdu))
    check("version number", version == (0 if version is ProtocolVersion.SNMPv1 else 1))
    got, tail = Message.decode(wire + rest, leftovers=True, types=types)
    check("equal", got == obj)
    check("version", got.version == version and type(got.version) is ProtocolVersion)
    check("community", got.community == community)
    check("pdu", got.pdu == obj.pdu and type(got.pdu) is cls)
    check("tail", tail[:] == rest)
    check("re-encoding", got.encode() == wire)
    check("version alone", VersionOnlyMessage.decode(wire).version is version)
    del types[cls.TAG]
    check("PDU type not admitted", raises(ParseError, decode_with, wire, types))
    cover("end")


def decode_with(wire, types):
    return Message.decode(wire, types=types)
