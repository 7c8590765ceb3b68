"""C20: an SNMPv1/v2c request is retransmitted on time, answered by its response, and ends."""
from specs import runtime

from math import floor

from pyvc.api import *
from pyvc.gens import *

from snmp.dispatcher import Dispatcher
from snmp.manager import Timeout
from snmp.manager.v1 import SNMPv1Manager
from snmp.manager.v2c import SNMPv2cManager
from snmp.message import Message, ProtocolVersion
from snmp.message.v1 import SNMPv1MessageProcessor
from snmp.message.v2c import SNMPv2cMessageProcessor
from snmp.pdu import *
from snmp.pdu import VarBind, VarBindList
from snmp.smi import Integer, OID
from snmp.transport import Transport, TransportChannel
from specs import contracts, stdlib
from specs.waiting import *
from specs.inputs import BINDINGS, I32

PROPERTY = "C20"
TRUSTED = [runtime.TRUST, stdlib.RANDOM_TRUST]
OPTS = {"contracts": lambda: {**contracts.messages(), **stdlib.numbering()},
        "models": lambda: {**runtime.locks(), **runtime.timing(), **runtime.heaps(), **runtime.rounding(), **stdlib.randoms(),
                           stdlib.numbers: stdlib.m_numbers}}

SPLIT = {**OPTS, "split": ("version", "period")}
PAIRS = {**OPTS, "split": ("version", "periods")}
DRAWS = Tup(I32, I32, I32)
VERSION = Choice(1, 2)
COMMUNITY, OTHER = b"community", b"another"
I31 = Int(0, 2 ** 31 - 1)
NAME = "1.3.6.1.2.1.1.1.0"


class Wire(Transport):
    """what has been sent, and when"""

    def __init__(self, world):
        self.world = world
        self.sent = []
        self.asked = []

    def send(self, address, data):
        for a in self.asked:
            if decoded(data).pdu.requestID == a.id:
                a.again(self.world.now, address, data)
        self.sent.append((self.world.now, address, data))


class Asked:
    """a request, as the network and the clock see it"""

    def __init__(self, world, wire, start, send, timeout, period):
        self.world, self.wire = world, wire
        self.timeout, self.period = timeout, period
        self.index = len(wire.sent)
        self.earliest = world.now + timeout
        self.request = send(timeout=timeout, refreshPeriod=period)
        self.latest = world.now + timeout
        self.start, address, self.data = wire.sent[self.index]
        check("sent at once", len(wire.sent) == self.index + 1 and address == "there")
        self.id = decoded(self.data).pdu.requestID
        self.answered = None
        wire.asked.append(self)

    def again(self, t, address, data):
        check("the same again", data == self.data and address == "there")
        check("once in each period", self.slot(t) > self.slot(self.sent()[-1]))
        check("not after the end", t < self.latest)
        check("not after the answer", self.answered is None)

    def slot(self, t):
        """the period that an instant belongs to"""
        return floor((t - self.start) / self.period)

    def sent(self):
        return [t for t, address, data in self.wire.sent if decoded(data).pdu.requestID == self.id]

    def deadline(self):
        """when the next datagram is due"""
        return min(self.start + (self.slot(self.sent()[-1]) + 1) * self.period, self.latest)


def manager(version, world, draws, autowait=False):
    stdlib.numbers(draws)
    assume(draws[0] != 0 and draws[1] != 0 and draws[2] != 0)
    d = Dispatcher(None)
    wire = Wire(world)
    channel = TransportChannel(wire, "there", "here")
    if version == 1:
        d.addMessageProcessor(SNMPv1MessageProcessor())
        return d, SNMPv1Manager(d, channel, COMMUNITY, autowait=autowait), wire
    d.addMessageProcessor(SNMPv2cMessageProcessor())
    return d, SNMPv2cManager(d, channel, COMMUNITY, autowait=autowait), wire


def versions(version):
    return ProtocolVersion.SNMPv1 if version == 1 else ProtocolVersion.SNMPv2c


def decoded(data, cls=GetRequestPDU):
    return Message.decode(data, types={cls.TAG: cls})


def answer(version, community, data, status, index, vbs):
    response = ResponsePDU(requestID=decoded(data).pdu.requestID, errorStatus=status, errorIndex=index,
                           variableBindings=vbs)
    return Message(versions(version), community, response).encode()


@theorem(SPLIT, version=VERSION, draws=DRAWS, asked=BINDINGS, now=NOW, timeout=DELAY, period=PERIOD, late=Tup(DELAY, DELAY),
         before=DELAY, how=Choice("early", "at once", "later", "never"), when=DELAY, still=Bool())
def schedule(version, draws, asked, now, timeout, period, late, before, how, when, still):
    """one request, from the first datagram to its end"""
    world = World(now, ([(late[0], None)] if how in ("later", "never") else []) +
                  ([(late[1], None)] if how == "never" else []) +
                  ([(when, "answer")] if how in ("at once", "later") else []), still)
    runtime.use(world)
    d, m, wire = manager(version, world, draws)

    def send(**kw):
        return m.sendRequest(GetRequestPDU(variableBindings=asked), **kw)
    a = Asked(world, wire, now, send, timeout, period)
    reply = answer(version, COMMUNITY, a.data, ErrorStatus.noError, 0, asked)

    def deliver(what):
        d.hear(None, None, reply)
        a.answered = world.now
    world.deliver = deliver
    world.deadlines = lambda: [a.deadline()]
    if how == "early":
        deliver("answer")
    world.resumed = world.now = world.now + before
    got, value = outcome(a.request)
    if got == "timeout":
        check("no answer", a.answered is None)
        check("waited", world.now >= a.earliest)
        cover("timeout")
    else:
        check("answer", got == "result" and a.answered is not None)
        cover("answer")
    n = len(wire.sent)
    check("nothing else", len(a.sent()) == n)
    world.now = world.now + before
    m.refresh()
    check("over", len(wire.sent) == n)
    cover("end")


@theorem(PAIRS, version=VERSION, draws=DRAWS, asked=BINDINGS, now=NOW, timeouts=Tup(DELAY, DELAY), periods=Choice((1.0, 1.0), (1.0, 4.0), (4.0, 1.0)),
         late=DELAY, gap=DELAY, what=Choice(None, "other", "dropped"))
def several(version, draws, asked, now, timeouts, periods, late, gap, what):
    """two requests of one manager: each is retransmitted on time while one is waited for"""
    assume(draws[0] != draws[1])
    world = World(now, [(late, what)], still=True)
    runtime.use(world)
    d, m, wire = manager(version, world, draws)

    def send(**kw):
        return m.sendRequest(GetRequestPDU(variableBindings=asked), **kw)
    a = Asked(world, wire, now, send, timeouts[0], periods[0])
    world.now = world.now + gap
    b = Asked(world, wire, now, send, timeouts[1], periods[1])
    box = [b.request]
    b.request = None
    reply = answer(version, COMMUNITY, b.data, ErrorStatus.noError, 0, asked)

    def deliver(what):
        b.answered = world.now
        if what == "other":
            d.hear(None, None, reply)
        else:
            runtime.release(box)

    def deadlines():
        out = []
        if world.now < a.earliest:
            out.append(a.deadline())
        if b.answered is None and world.now < b.earliest:
            out.append(b.deadline())
        return out
    world.deliver = deliver
    world.deadlines = deadlines
    try:
        a.request.wait()
    except Timeout:
        pass
    else:
        check("times out", False)
    check("nothing else", len(a.sent()) + len(b.sent()) == len(wire.sent))
    cover("end")


@theorem(OPTS, version=VERSION, draws=DRAWS, now=NOW, other=Bool(), rc=Choice(COMMUNITY, OTHER), early=Bool(),
         status=Choice(ErrorStatus.noError, ErrorStatus.tooBig, ErrorStatus.genErr), index=Int(0, 3), vbs=BINDINGS, again=BINDINGS)
def results(version, draws, now, other, rc, early, status, index, vbs, again):
    """the first response decides what waiting gives"""
    assume(index <= len(vbs))
    world = World(now, [] if early else [(0.5, "answer")])
    runtime.use(world)
    d, m, wire = manager(version, world, draws)
    request = m.get(NAME, community=OTHER) if other else m.get(NAME)
    (start, address, data), = wire.sent
    community = OTHER if other else COMMUNITY
    check("community", decoded(data).community == community and decoded(data).version is versions(version))
    reply = answer(version, rc, data, status, index, vbs)

    def deliver(what):
        d.hear(None, None, reply)
    world.deliver = deliver
    if early:
        deliver("answer")
    got, value = outcome(request)
    if rc != community:
        check("another community", got == "timeout")
        cover("refused")
    elif status:
        check("error", got == "error" and value.status == status)
        cover("error")
    else:
        check("result", got == "result" and value == vbs)
        cover("result")
    n = len(wire.sent)
    d.hear(None, None, reply)
    m.refresh()
    check("over", len(wire.sent) == n)
    cover("end")


KINDS = Choice(*[(v, op) for v in (1, 2) for op in ("get", "getNext", "set", "getBulk")[:v + 2]])


@theorem({**OPTS, "split": ("kind",)}, kind=KINDS, draws=DRAWS, now=NOW, auto=Bool(),
         wait=Choice(None, True, False), nr=I31, mr=I31, n=I32, responds=Bool())
def operations(kind, draws, now, auto, wait, nr, mr, n, responds):
    """what each operation asks for, and whether it waits"""
    version, op = kind
    world = World(now, [(0.5, "answer")] if responds else [])
    runtime.use(world)
    d, m, wire = manager(version, world, draws, auto)
    kinds = {"get": GetRequestPDU, "getNext": GetNextRequestPDU, "set": SetRequestPDU, "getBulk": GetBulkRequestPDU}
    cls = kinds[op]

    def deliver(what):
        d.hear(None, None, reply(wire.sent[0][2]))

    def reply(data):
        response = ResponsePDU(NAME, requestID=decoded(data, cls).pdu.requestID)
        return Message(versions(version), COMMUNITY, response).encode()
    world.deliver = deliver
    value = VarBind(NAME, Integer(n))
    waits = auto if wait is None else wait
    try:
        if op == "set":
            got = m.set(value, (NAME, None), wait=wait)
        elif op == "getBulk":
            got = m.getBulk(NAME, "1.3.6.2", nonRepeaters=nr, maxRepetitions=mr, wait=wait)
        elif op == "getNext":
            got = m.getNext(NAME, "1.3.6.2", wait=wait)
        else:
            got = m.get(NAME, OID.parse("1.3.6.2"), wait=wait)
    except Timeout:
        check("waits", waits and not responds)
        cover("timeout")
        return
    pdu = decoded(wire.sent[0][2], cls).pdu
    if op == "set":
        check("bindings", pdu.variableBindings == VarBindList(value, VarBind(NAME, None)))
    else:
        check("names", pdu.variableBindings == VarBindList(NAME, "1.3.6.2"))
    if op == "getBulk":
        check("bulk", pdu.nonRepeaters == nr and pdu.maxRepetitions == mr)
    else:
        check("no error", pdu.errorStatus == 0 and pdu.errorIndex == 0)
    if waits:
        check("result", responds and got == VarBindList(NAME))
        cover("result")
    else:
        check("handle", outcome(got)[0] == ("result" if responds else "timeout"))
        cover("handle")
