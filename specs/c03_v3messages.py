"""C03: the parts of an SNMPv3 message survive encoding and decoding, and the signature is where it is said to be."""
from pyvc.api import *
from pyvc.gens import *

from snmp.ber import ParseError
from snmp.exception import IncomingMessageError
from snmp.message import ProtocolVersion
from snmp.message.v3 import *
from snmp.message.version import VersionOnlyMessage
from snmp.pdu import *
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import Integer, OctetString, Sequence
from snmp.utils import subbytes
from snmp import ber
from specs import contracts
from specs.inputs import BINDINGS, I32, layout

PROPERTY = "C03"
OPTS = {"contracts": contracts.bindings}
FRAMES = {"contracts": contracts.values}

LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)
U31 = Int(0, 2 ** 31 - 1)
MSGID = Int(0, 2 ** 31 - 1, edges=(0, 127, 128, 2 ** 31 - 1))
SIZE = Int(484, 2 ** 31 - 1, edges=(484, 65507, 2 ** 31 - 1))
OCTETS = Bytes(0, 0xffff)
NAME = Bytes(0, 1000)
ALLPDUS = (GetRequestPDU, GetNextRequestPDU, ResponsePDU, SetRequestPDU, GetBulkRequestPDU, InformRequestPDU,
           SNMPv2TrapPDU, ReportPDU)


def octet(level, reportable):
    return bytes((int(level.auth) + 2 * int(level.priv) + 4 * int(reportable),))


@theorem(FRAMES, id=MSGID, size=SIZE, level=LEVEL, reportable=Bool(), rest=Bytes())
def header(id, size, level, reportable, rest):
    h = HeaderData(id, size, MessageFlags(level, reportable), SecurityModel.USM)
    wire = h.encode()
    check("layout", wire == layout(Sequence.TAG, Integer(id), Integer(size), OctetString(octet(level, reportable)), Integer(3)))
    got, tail = HeaderData.decode(wire + rest, leftovers=True)
    check("id", got.id == id)
    check("maxSize", got.maxSize == size)
    check("level", got.flags.securityLevel == level)
    check("reportable", got.flags.reportableFlag == reportable)
    check("securityModel", got.securityModel == SecurityModel.USM)
    check("equal", got == h)
    check("tail", tail[:] == rest)
    check("re-encoding", got.encode() == wire)
    cover("end")


@theorem(FRAMES, id=I32, size=I32, level=LEVEL, model=I32)
def header_limits(id, size, level, model):
    """a header outside of the limits of RFC 3412 is refused"""
    wire = HeaderData(id, size, MessageFlags(level), model).encode()
    try:
        got = HeaderData.decode(wire)
    except IncomingMessageError:
        check("refused", id < 0 or size < 484 or model != 3)
        cover("refused")
        return
    check("accepted", id >= 0 and size >= 484 and model == 3)
    cover("accepted")


@theorem(FRAMES, octets=Bytes(0, 8))
def flags(octets):
    """the flags are the three low bits of the first octet; privacy without authentication is refused"""
    wire = OctetString(octets).encode()
    try:
        got = MessageFlags.decode(wire)
    except IncomingMessageError:
        check("refused", len(octets) == 0 or octets[0] % 4 == 2)
        cover("refused")
        return
    check("accepted", len(octets) > 0 and octets[0] % 4 != 2)
    check("auth", got.authFlag == (octets[0] % 2 == 1))
    check("priv", got.privFlag == (octets[0] // 2 % 2 == 1))
    check("reportable", got.reportableFlag == (octets[0] // 4 % 2 == 1))
    check("level", got.securityLevel == SecurityLevel(got.authFlag, got.privFlag))
    check("octet", got.data[0] == octets[0] % 8 and len(got.data) == 1)
    cover("accepted")


def pdu_of(cls, rid, vbs):
    return cls(requestID=rid, variableBindings=vbs)


@theorem(OPTS, cls=Choice(*ALLPDUS), rid=I32, vbs=BINDINGS, engine=OCTETS, name=OCTETS, rest=Bytes())
def scoped_pdu(cls, rid, vbs, engine, name, rest):
    types = {c.TAG: c for c in ALLPDUS}
    obj = ScopedPDU(pdu_of(cls, rid, vbs), engine, name)
    wire = obj.encode()
    check("layout", wire == layout(Sequence.TAG, OctetString(engine), OctetString(name), obj.pdu))
    got, tail = ScopedPDU.decode(wire + rest, leftovers=True, types=types)
    check("equal", got == obj)
    check("contextEngineID", got.contextEngineID == engine)
    check("contextName", got.contextName == name)
    check("pdu", got.pdu == obj.pdu and type(got.pdu) is cls)
    check("tail", tail[:] == rest)
    check("re-encoding", got.encode() == wire)
    del types[cls.TAG]
    check("PDU type not admitted", raises(ParseError, decode_with, wire, types))
    cover("end")


def decode_with(wire, types):
    return ScopedPDU.decode(wire, types=types)


@theorem(FRAMES, engine=NAME, boots=U31, time=U31, user=NAME, signature=NAME, salt=NAME, before=Bytes(), after=Bytes())
def usm_parameters(engine, boots, time, user, signature, salt, before, after):
    """the fields come back, wherever in a message the parameters are, and with them the place of the signature"""
    obj = UsmSecurityParameters(engine, boots, time, user, signature, salt)
    wire = obj.encode()
    check("layout", wire == layout(Sequence.TAG, OctetString(engine), Integer(boots), Integer(time), OctetString(user),
                                   OctetString(signature), OctetString(salt)))
    whole = before + wire + after
    got = UsmSecurityParameters.decode(subbytes(whole, len(before), len(before) + len(wire)))
    check("equal", got == obj)
    check("engineID", got.engineID == engine)
    check("engineBoots", got.engineBoots == boots)
    check("engineTime", got.engineTime == time)
    check("userName", got.userName == user)
    check("signature", got.signature == signature)
    check("salt", got.salt == salt)
    check("message", got.wholeMsg == whole)
    i = got.signatureIndex
    check("place of the signature", whole[i:i + len(signature)] == signature)
    place = UsmSecurityParameters.findSignature(subbytes(whole, len(before), len(before) + len(wire)))
    check("same place", place.start == i and place.stop == i + len(signature))
    check("re-encoding", got.encode() == wire)
    cover("end")


@theorem(FRAMES, engine=NAME, boots=U31, time=U31, user=NAME, padding=Bytes(0, 64), signature=Bytes(0, 64), salt=NAME)
def signing(engine, boots, time, user, padding, signature, salt):
    """a signature put in the place of a placeholder is the signature of the message, nothing else changes"""
    assume(len(padding) == len(signature))
    wire = UsmSecurityParameters(engine, boots, time, user, padding, salt).encode()
    place = UsmSecurityParameters.findSignature(subbytes(wire))
    signed = place.replace(signature)
    check("signed", signed == UsmSecurityParameters(engine, boots, time, user, signature, salt).encode())
    got = UsmSecurityParameters.decode(signed)
    check("signature", got.signature == signature)
    cover("end")


@theorem(FRAMES, boots=I32, time=I32, text=NAME)
def usm_limits(boots, time, text):
    """negative boots or time are refused"""
    wire = UsmSecurityParameters(text, boots, time, text, text, text).encode()
    try:
        got = UsmSecurityParameters.decode(wire)
    except IncomingMessageError:
        check("refused", boots < 0 or time < 0)
        return
    check("accepted", boots >= 0 and time >= 0)
    cover("end")


@theorem(OPTS, id=MSGID, size=SIZE, level=LEVEL, reportable=Bool(), security=OCTETS,
         cls=Choice(GetRequestPDU, ReportPDU), rid=I32, vbs=BINDINGS, engine=NAME, name=NAME, ciphertext=OCTETS)
def message(id, size, level, reportable, security, cls, rid, vbs, engine, name, ciphertext):
    h = HeaderData(id, size, MessageFlags(level, reportable), SecurityModel.USM)
    scoped = ScopedPDU(pdu_of(cls, rid, vbs), engine, name)
    m = SNMPv3Message(h, scoped, OctetString(ciphertext) if level.priv else None, OctetString(security))
    wire = m.encode()
    check("layout", wire == layout(Sequence.TAG, Integer(3), h, OctetString(security),
                                   m.encryptedPDU if level.priv else scoped))
    got = SNMPv3Message.decode(wire)
    check("header", got.header == h)
    check("level", got.header.flags.securityLevel == level)
    check("securityParameters", got.securityParameters.data == security)
    if level.priv:
        check("encryptedPDU", got.encryptedPDU.data == ciphertext)
        check("nothing in the clear", got.scopedPDU is None)
    else:
        check("scopedPDU", got.scopedPDU == scoped)
        check("nothing encrypted", got.encryptedPDU is None)
    place = SNMPv3Message.findSecurityParameters(wire)
    check("place of the security parameters", place[:] == security)
    original = got.securityParameters.original
    check("same place", original.start == place.start and original.stop == place.stop and original.data == wire)
    check("re-encoding", got.encode() == wire)
    check("equal", got == m)
    check("version alone", VersionOnlyMessage.decode(wire).version is ProtocolVersion.SNMPv3)
    cover("end")


@theorem(OPTS, cls=Choice(*ALLPDUS), rid=I32, vbs=BINDINGS, engine=NAME, name=NAME, padding=Bytes(0, 16))
def plaintext(cls, rid, vbs, engine, name, padding):
    """the plaintext of a message, with what a block cipher may have padded it with, gives back the scoped PDU"""
    scoped = ScopedPDU(pdu_of(cls, rid, vbs), engine, name)
    h = HeaderData(1, 484, MessageFlags(authPriv), SecurityModel.USM)
    a, b = SNMPv3Message(h, scoped), SNMPv3Message(h)
    b.plaintext = a.plaintext + padding
    check("scopedPDU", b.scopedPDU == scoped)
    check("same", a.plaintext == scoped.encode() and b.plaintext == scoped.encode())
    cover("end")
