"""SNMPv3 messages as RFC 3414 has them, for the specifications of the security module."""
from snmp.message.v3 import *
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.security.usm.parameters import UsmSecurityParameters
from snmp.smi import OctetString


def heard(module, engine, boots, time, now):
    """an unauthenticated message that tells the clock of the engine"""
    message = SNMPv3Message(HeaderData(1, 484, MessageFlags(noAuthNoPriv), SecurityModel.USM),
                            securityParameters=OctetString(UsmSecurityParameters(engine, boots, time, b"", b"", b"").encode()))
    module.processIncoming(message, now)


def message_of(id, level, pdu, engine, context):
    return SNMPv3Message(HeaderData(id, 1500, MessageFlags(level, True), SecurityModel.USM), ScopedPDU(pdu, engine, context))


def protected(message, engine, boots, time, name, keys):
    """the message as RFC 3414 demands it"""
    level = message.header.flags.securityLevel
    signature = salt = b""
    if level.priv:
        ciphertext, salt = keys.priv.encrypt(message.scopedPDU.encode(), boots, time)
        message.encryptedPDU = OctetString(ciphertext)
    if level.auth:
        signature = keys.auth.msgAuthenticationParameters
    else:
        boots = time = 0
    message.securityParameters = OctetString(UsmSecurityParameters(engine, boots, time, name, signature, salt).encode())
    if level.auth:
        signature = keys.auth.sign(message.encode())
        message.securityParameters = OctetString(UsmSecurityParameters(engine, boots, time, name, signature, salt).encode())
    return message.encode()


def resigned(message, signature):
    """the same message with another signature"""
    p = UsmSecurityParameters.decode(message.securityParameters.data)
    message.securityParameters = OctetString(
        UsmSecurityParameters(p.engineID, p.engineBoots, p.engineTime, p.userName, signature, p.salt).encode())
    return message.encode()
