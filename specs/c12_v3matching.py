"""C12: SNMPv3 responses are matched with the request they answer."""
from pyvc.api import *
from pyvc.gens import *

from snmp.exception import IncomingMessageError, SNMPException
from snmp.message import RequestHandle
from snmp.message.v3 import *
from snmp.pdu import *
from snmp.security import SecurityModule
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.smi import OctetString
from specs import contracts, runtime, stdlib
from specs.inputs import BINDINGS, I32

PROPERTY = "C12"
TRUSTED = [runtime.TRUST, stdlib.RANDOM_TRUST]
OPTS = {"contracts": lambda: {**contracts.v3messages(), **stdlib.numbering()},
        "models": lambda: {**runtime.locks(), **stdlib.randoms(), stdlib.numbers: stdlib.m_numbers},
        "unroll": 0}

NAME = Bytes(0, 32)
CONTEXT = Bytes(0, 255)
LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)
MANY = Int(0, sample=6, burst=200)
U31 = Int(0, 2 ** 31 - 1)
DRAWS = Tup(U31, U31, U31)
WHO = Tup(NAME, NAME, CONTEXT)


class Handle(RequestHandle):
    def __init__(self):
        self.callbacks = []

    def addCallback(self, func, idNum):
        self.callbacks.append((func, idNum))

    def finish(self):
        for func, idNum in self.callbacks:
            func(idNum)


class Module(SecurityModule):
    """whatever a security module does, this is what the message processor sees of it"""
    MODEL = SecurityModel.USM

    def __init__(self):
        self.sent = None
        self.refuse = None
        self.engineID = self.name = self.scoped = None

    def prepareOutgoing(self, message, engineID, securityName):
        self.sent = (message, engineID, securityName)
        return b"wire"

    def processIncoming(self, message, timestamp=None):
        if self.refuse is not None:
            raise self.refuse("refused")
        message.securityEngineID = self.engineID
        message.securityName = self.name
        if message.scopedPDU is None:
            message.scopedPDU = self.scoped


def processor(draws):
    stdlib.numbers(draws)
    p, module = SNMPv3MessageProcessor(1500), Module()
    p.addSecurityModuleIfNeeded(module)
    return p, module


def request(p, module, handle, who, level, vbs, cls=GetRequestPDU):
    """message ID of a new request"""
    engine, user, context = who
    pdu = cls(variableBindings=vbs)
    try:
        wire = p.prepareOutgoingMessage(pdu, handle, engine, user, level, contextName=context)
    except SNMPException:
        assume(False)
    message, e, u = module.sent
    h = message.header
    check("handed to the security module", wire == b"wire" and e == engine and u == user)
    check("header", h.flags.securityLevel == level and h.flags.reportableFlag and h.securityModel == SecurityModel.USM)
    check("scope", message.scopedPDU.contextEngineID == engine and message.scopedPDU.contextName == context)
    check("pdu", message.scopedPDU.pdu is pdu)
    module.sent = None
    return h.id


def crowd(p, module, many, who, vbs):
    """any number of other requests, all of them outstanding"""
    def one():
        h = Handle()
        return h, request(p, module, h, who, authNoPriv, vbs)
    return repeat(many, one)


def deliver(p, module, rid, who, level, vbs, cls=ResponsePDU, inner=None):
    """the handle that a response is for, or None"""
    module.engineID, module.name, context = who
    if inner is None:
        inner = module.engineID
    scoped = ScopedPDU(cls(variableBindings=vbs), inner, context)
    header = HeaderData(rid, 1500, MessageFlags(level), SecurityModel.USM)
    module.scoped = scoped
    wire = SNMPv3Message(header, scoped, OctetString()).encode()
    try:
        message, handle = p.prepareDataElements(wire)
    except IncomingMessageError:
        return None
    check("content", message.header.id == rid and message.scopedPDU == scoped and
          message.header.flags.securityLevel == level)
    check("handle", handle is not None)
    return handle


@theorem(OPTS, many=MANY, w0=WHO, who=WHO, level=LEVEL, draws=DRAWS, vbs=BINDINGS, report=Bool(), r=U31, same=Bool(),
         rwho=WHO, rlevel=LEVEL, inner=NAME, answer=BINDINGS)
def matching(many, w0, who, level, draws, vbs, report, r, same, rwho, rlevel, inner, answer):
    """a response is for the request with its message ID, if engine, user, context and level are those of the request"""
    p, module = processor(draws)
    crowd(p, module, many, w0, vbs)
    handle = Handle()
    n = request(p, module, handle, who, level, vbs)
    check("message ID", 0 < n < 2 ** 31)
    if same:
        r = n
    cls = ReportPDU if report else ResponsePDU
    got = deliver(p, module, r, rwho, rlevel, answer, cls, inner)
    if r != n:
        check("for no other", got is not handle)
        check("still expected", deliver(p, module, n, who, level, answer) is handle)
        cover("another")
        return
    check("for this request or none", got is handle or got is None)
    fits = rwho[1] == who[1] and rwho[2] == who[2]
    if not report:
        fits = fits and rwho[0] == who[0] and inner == who[0] and rlevel >= level
    check("for this request", (got is handle) == fits)
    check("still expected", deliver(p, module, n, who, level, answer) is handle)
    cover("this request")


@theorem(OPTS, many=MANY, w0=WHO, a=WHO, b=WHO, draws=DRAWS, vbs=BINDINGS, how=Choice("wait", "finish", "release"),
         first=Bool(), answer=BINDINGS)
def end_of_a_request(many, w0, a, b, draws, vbs, how, first, answer):
    """IDs of outstanding requests differ; a finished or abandoned request gets no response, the others do"""
    p, module = processor(draws)
    others = crowd(p, module, many, w0, vbs)
    h1, h2 = Handle(), Handle()
    n1 = request(p, module, h1, a, authNoPriv, vbs)
    n2 = request(p, module, h2, b, authNoPriv, vbs)
    check("distinct", n1 != n2)
    for h, n in others:
        check("distinct from the others", n != n1 and n != n2)
    if not first:
        h1, n1, a, h2, n2, b = h2, n2, b, h1, n1, a
    if how == "finish":
        h1.finish()
    elif how == "release":
        box = [h1]
        h1 = None
        runtime.release(box)
    if how == "wait":
        check("response", deliver(p, module, n1, a, authNoPriv, answer) is h1)
        check("again", deliver(p, module, n1, a, authNoPriv, answer) is h1)
    else:
        check("refused", deliver(p, module, n1, a, authNoPriv, answer) is None)
    check("the other one", deliver(p, module, n2, b, authNoPriv, answer) is h2)
    for h, n in others:
        check("the others", deliver(p, module, n, w0, authNoPriv, answer) is h)
    cover("end")


@theorem(OPTS, many=MANY, w0=WHO, who=WHO, draws=DRAWS, vbs=BINDINGS, times=Choice(1, 2), answer=BINDINGS)
def retransmission(many, w0, who, draws, vbs, times, answer):
    """a request can be sent any number of times: responses to each copy are accepted until it ends, then none is"""
    p, module = processor(draws)
    crowd(p, module, many, w0, vbs)
    handle = Handle()
    sent = [request(p, module, handle, who, authNoPriv, vbs) for _ in range(times + 1)]
    for i in range(times):
        check("own ID", sent[i] not in sent[i + 1:])
    for n in sent:
        check("matched", deliver(p, module, n, who, authNoPriv, answer) is handle)
    handle.finish()
    for n in sent:
        check("removed", deliver(p, module, n, who, authNoPriv, answer) is None)
    cover("end")


NOT_RESPONSES = (GetRequestPDU, GetNextRequestPDU, SetRequestPDU, GetBulkRequestPDU, InformRequestPDU, SNMPv2TrapPDU)


@theorem(OPTS, many=MANY, w0=WHO, who=WHO, draws=DRAWS, vbs=BINDINGS, cls=Choice(*NOT_RESPONSES), r=U31, same=Bool(), level=LEVEL)
def only_responses(many, w0, who, draws, vbs, cls, r, same, level):
    """no other type of PDU is taken for a response, whatever its message ID"""
    p, module = processor(draws)
    crowd(p, module, many, w0, vbs)
    handle = Handle()
    n = request(p, module, handle, who, level, vbs)
    if same:
        r = n
    try:
        deliver(p, module, r, who, level, vbs, cls)
    except Exception:
        check("still expected", deliver(p, module, n, who, level, vbs) is handle)
        cover("refused")
        return
    check("accepted", False)


@theorem(OPTS, many=MANY, who=WHO, draws=DRAWS, vbs=BINDINGS, enabled=Bool(), error=Choice(SNMPException, ValueError))
def security(many, who, draws, vbs, enabled, error):
    """a message that its security module refuses, or for which there is none, is for no request"""
    p, module = processor(draws)
    crowd(p, module, many, who, vbs)
    handle = Handle()
    n = request(p, module, handle, who, authPriv, vbs)
    if enabled:
        module.refuse = error
        check("refused", raises(error, deliver, p, module, n, who, authPriv, vbs))
        module.refuse = None
    else:
        check("none", deliver(SNMPv3MessageProcessor(1500), module, n, who, authPriv, vbs) is None)
    check("still expected", deliver(p, module, n, who, authPriv, vbs) is handle)
    cover("end")
