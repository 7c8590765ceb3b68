"""C11: SNMPv1/v2c responses are matched with the request they answer."""
from pyvc.api import *
from pyvc.gens import *

from snmp.exception import IncomingMessageError, SNMPException
from snmp.message import Message, ProtocolVersion, RequestHandle
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.pdu import *
from specs import contracts, runtime, stdlib
from specs.inputs import BINDINGS, I32

PROPERTY = "C11"
TRUSTED = [runtime.TRUST, stdlib.RANDOM_TRUST]
OPTS = {"contracts": lambda: {**contracts.messages(), **stdlib.numbering()},
        "models": lambda: {**runtime.locks(), **stdlib.randoms(), stdlib.numbers: stdlib.m_numbers},
        "unroll": 0}

VERSION = Choice(1, 2)
COMMUNITY = Bytes(0, 0xffff)
REQUESTS = (GetRequestPDU, GetNextRequestPDU, SetRequestPDU)
MANY = Int(0, sample=6, burst=400)
DRAWS = Tup(I32, I32, I32)


class Handle(RequestHandle):
    def __init__(self):
        self.callbacks = []

    def addCallback(self, func, idNum):
        self.callbacks.append((func, idNum))

    def finish(self):
        for func, idNum in self.callbacks:
            func(idNum)


def processor(version, draws):
    stdlib.numbers(draws)
    if version == 1:
        return SNMPv1MessageProcessor(), ProtocolVersion.SNMPv1
    return SNMPv2cMessageProcessor(), ProtocolVersion.SNMPv2c


def request(p, handle, community, vbs, cls=GetRequestPDU):
    """(request ID, message)"""
    pdu = cls(variableBindings=vbs)
    try:
        wire = p.prepareOutgoingMessage(pdu, handle, community)
    except SNMPException:
        assume(False)
    return pdu.requestID, wire


def crowd(p, many, community, vbs):
    """any number of other requests, all of them outstanding"""
    def one():
        h = Handle()
        n, _ = request(p, h, community, vbs)
        return h, n
    return repeat(many, one)


def deliver(p, version, community, rid, vbs, status):
    """the handle that a response is for, or None"""
    wire = Message(version, community, ResponsePDU(requestID=rid, errorStatus=status, variableBindings=vbs)).encode()
    try:
        message, handle = p.prepareDataElements(wire)
    except IncomingMessageError:
        return None
    check("content", message.pdu.requestID == rid and message.community == community and
          message.pdu.variableBindings == vbs and message.pdu.errorStatus == status)
    check("handle", handle is not None)
    return handle


@theorem(OPTS, version=VERSION, many=MANY, c0=COMMUNITY, c=COMMUNITY, draws=DRAWS, vbs=BINDINGS,
         r=I32, same=Bool(), rc=COMMUNITY, ok=Bool(), answer=BINDINGS)
def matching(version, many, c0, c, draws, vbs, r, same, rc, ok, answer):
    """a response is for the request with its ID, provided that the community is that of the request"""
    p, v = processor(version, draws)
    others = crowd(p, many, c0, vbs)
    handle = Handle()
    n, wire = request(p, handle, c, vbs)
    check("nonzero", n != 0)
    if same:
        r = n
    got = deliver(p, v, rc, r, answer, ErrorStatus.noError if ok else ErrorStatus.genErr)
    if r == n:
        check("for this request", (got is handle) == (rc == c))
        check("for this request or none", got is handle or got is None)
        check("still expected", deliver(p, v, c, n, answer, ErrorStatus.noError) is handle)
        cover("this request")
    else:
        check("for no other", got is not handle)
        check("still expected", deliver(p, v, c, n, answer, ErrorStatus.noError) is handle)
        cover("another")


@theorem(OPTS, version=VERSION, many=MANY, c0=COMMUNITY, a=COMMUNITY, b=COMMUNITY, draws=DRAWS, vbs=BINDINGS,
         vbs2=BINDINGS, how=Choice("wait", "finish", "release"), first=Bool(), rc=COMMUNITY, answer=BINDINGS)
def end_of_a_request(version, many, c0, a, b, draws, vbs, vbs2, how, first, rc, answer):
    """IDs of outstanding requests differ; a finished or abandoned request gets no response, the others do"""
    p, v = processor(version, draws)
    others = crowd(p, many, c0, vbs)
    h1, h2 = Handle(), Handle()
    n1, _ = request(p, h1, a, vbs)
    n2, _ = request(p, h2, b, vbs2)
    check("distinct", n1 != n2)
    for h, n in others:
        check("distinct from the others", n != n1 and n != n2)
    if not first:
        h1, n1, a, h2, n2, b = h2, n2, b, h1, n1, a
    if how == "finish":
        h1.finish()
    elif how == "release":
        box = [h1]
        h1 = None
        runtime.release(box)
    if how == "wait":
        check("response", (deliver(p, v, rc, n1, answer, ErrorStatus.noError) is h1) == (rc == a))
        check("again", (deliver(p, v, rc, n1, answer, ErrorStatus.noError) is h1) == (rc == a))
    else:
        check("refused", deliver(p, v, a, n1, answer, ErrorStatus.noError) is None)
        check("refused with any community", deliver(p, v, rc, n1, answer, ErrorStatus.noError) is None)
    check("the other one", (deliver(p, v, rc, n2, answer, ErrorStatus.noError) is h2) == (rc == b))
    for h, n in others:
        check("the others", (deliver(p, v, rc, n, answer, ErrorStatus.noError) is h) == (rc == c0))
    cover("end")


@theorem(OPTS, version=VERSION, many=MANY, c0=COMMUNITY, c=COMMUNITY, draws=DRAWS, vbs=BINDINGS, vbs2=BINDINGS,
         cls=Choice(*REQUESTS), times=Int(1, sample=4), rc=COMMUNITY)
def retransmission(version, many, c0, c, draws, vbs, vbs2, cls, times, rc):
    """a message carries the version, the community and the PDU; sent again, it is the same message"""
    p, v = processor(version, draws)
    crowd(p, many, c0, vbs2)
    handle = Handle()
    pdu = cls(variableBindings=vbs)
    try:
        wire = p.prepareOutgoingMessage(pdu, handle, c)
    except SNMPException:
        assume(False)
    n = pdu.requestID
    check("message", wire == Message(v, c, cls(requestID=n, variableBindings=vbs)).encode())
    check("registered", len(handle.callbacks) == 1)
    crowd(p, many, c0, vbs2)

    def again():
        check("same message", p.prepareOutgoingMessage(pdu, handle, c) == wire)
        check("same ID", pdu.requestID == n)
        check("registered once", len(handle.callbacks) == 1)
    repeat(times, again)
    check("matched", (deliver(p, v, rc, n, vbs2, ErrorStatus.noError) is handle) == (rc == c))
    handle.finish()
    check("removed", deliver(p, v, rc, n, vbs2, ErrorStatus.noError) is None)
    cover("end")


NOT_RESPONSES = (GetRequestPDU, GetNextRequestPDU, SetRequestPDU, GetBulkRequestPDU, InformRequestPDU,
                 SNMPv2TrapPDU, ReportPDU)


@theorem(OPTS, version=VERSION, many=MANY, c0=COMMUNITY, c=COMMUNITY, draws=DRAWS, vbs=BINDINGS,
         cls=Choice(*NOT_RESPONSES), r=I32, same=Bool(), rc=COMMUNITY)
def only_responses(version, many, c0, c, draws, vbs, cls, r, same, rc):
    """no other type of PDU is taken for a response, whatever its request ID"""
    p, v = processor(version, draws)
    crowd(p, many, c0, vbs)
    handle = Handle()
    n, _ = request(p, handle, c, vbs)
    if same:
        r, rc = n, c
    wire = Message(v, rc, cls(requestID=r, variableBindings=vbs)).encode()
    try:
        p.prepareDataElements(wire)
    except Exception:
        check("still expected", deliver(p, v, c, n, vbs, ErrorStatus.noError) is handle)
        cover("refused")
        return
    check("accepted", False)
