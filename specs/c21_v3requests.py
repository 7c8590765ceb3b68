"""C21: SNMPv3 requests: discovery, synchronization, reports, retransmission and results."""
from specs import runtime

import weakref
from math import floor

from pyvc.api import *
from pyvc.gens import *

from snmp.exception import IncomingMessageError, SNMPLibraryBug
from snmp.manager import Timeout
from snmp.manager.v3 import *
from snmp.manager.v3 import (DecryptionErrorReport, UnhandledReport, UnknownUserNameReport, UnrecognizedReport,
                             UnsupportedSecurityLevelReport, WrongDigestReport)
from snmp.message import ProtocolVersion
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
from snmp.pdu import *
from snmp.pdu import VarBind, VarBindList
from snmp.security.levels import *
from snmp.security.models import SecurityModel
from snmp.smi import Counter32, Integer, OID
from specs import stdlib
from specs.inputs import BINDINGS, I32
from specs.waiting import *

PROPERTY = "C21"
TRUSTED = [runtime.TRUST, stdlib.RANDOM_TRUST]
OPTS = {"contracts": lambda: stdlib.numbering(),
        "models": lambda: {**runtime.locks(), **runtime.timing(), **runtime.heaps(), **runtime.rounding(),
                           **runtime.queues(), **stdlib.randoms(), stdlib.numbers: stdlib.m_numbers}}
DRAWS = Tup(I32, I32, I32)
LEVEL = Choice(noAuthNoPriv, authNoPriv, authPriv)
ENGINE, ENGINE2 = b"engine", b"another engine"
USER, USER2 = b"user", b"another user"
NAME = "1.3.6.1.2.1.1.1.0"
USM = "1.3.6.1.6.3.15.1.1"
UNKNOWN_ENGINE, TIME_WINDOW = USM + ".4.0", USM + ".2.0"
OTHERS = {USM + ".1.0": UnsupportedSecurityLevelReport, USM + ".3.0": UnknownUserNameReport,
          USM + ".5.0": WrongDigestReport, USM + ".6.0": DecryptionErrorReport, "1.3.6.1.6.3.11.2.1.3": UnrecognizedReport}


class Sent:
    """a message that has been handed to the dispatcher"""

    def __init__(self, time, pdu, handle, engine, user, level):
        self.time, self.pdu, self.engine, self.user, self.level = time, pdu, engine, user, level
        self.handle = weakref.ref(handle)
        self.open = 1


class Net:
    """the dispatcher below (C12, C13, C15, C19), as the manager sees it"""

    def __init__(self, world):
        self.world = world
        self.sent = []
        self.watch = []
        self.latest = NEVER

    def sendPdu(self, channel, version, pdu, handle, engineID, user, securityLevel=None, securityModel=None):
        check("version", channel == "channel" and version is ProtocolVersion.SNMPv3)
        check("security model", securityModel is SecurityModel.USM)
        m = Sent(self.world.now, pdu, handle, engineID, user, securityLevel)
        for a in self.watch:
            a.again(m)
        self.sent.append(m)

        def done(n):
            m.open -= 1
        handle.addCallback(done, len(self.sent))

    def push(self, m, pdu, engine, level):
        """a message for the one that was sent (one that is finished is refused by the dispatcher): was it taken?"""
        handle = m.handle()
        if m.open == 0 or handle is None:
            return False
        header = HeaderData(1, 1500, MessageFlags(level), SecurityModel.USM)
        message = SNMPv3Message(header, ScopedPDU(pdu, engine), securityEngineID=engine, securityName=m.user)
        try:
            handle.push(message)
        except IncomingMessageError:
            return False
        except SNMPLibraryBug:
            check("only after the end", self.world.now >= self.latest)
            return False
        return True

    def finished(self):
        for m in self.sent:
            check("closed", m.open == 0)


class Module:
    """the user-based security module (C18): which engines are in use"""

    def __init__(self):
        self.engines = []

    def registerRemoteEngine(self, engineID, namespace):
        check("namespace", namespace == "namespace")
        self.engines.append(engineID)
        return True

    def unregisterRemoteEngine(self, engineID, namespace):
        check("registered", namespace == "namespace" and engineID in self.engines)
        self.engines.remove(engineID)
        return True


def report(name):
    return ReportPDU(VarBind(name, Counter32(1)))


def manager(world, draws, engine, level, autowait=False):
    stdlib.numbers(draws)
    assume(draws[0] != 0 and draws[1] != 0 and draws[2] != 0)
    net, module = Net(world), Module()
    m = SNMPv3UsmManager(net, module, "channel", "namespace", USER, level, engine, autowait)
    return net, module, m


def is_discovery(m):
    return m.engine == b"" and m.user == b"" and m.level is noAuthNoPriv and type(m.pdu) is GetRequestPDU and \
        len(m.pdu.variableBindings) == 0


class Schedule:
    """when one request may be sent"""

    def __init__(self, world, net, request, timeout, period):
        self.world, self.net = world, net
        self.first = net.sent[-1]
        self.start = self.first.time
        self.last = self.start
        self.period = period
        self.latest = world.now + timeout
        self.answered = None
        self.reported = False
        net.watch.append(self)

    def slot(self, t):
        return floor((t - self.start) / self.period)

    def again(self, m):
        if m.pdu is not self.first.pdu and not is_discovery(m):
            return
        if self.reported:
            self.reported = False
            return
        check("once in each period", self.slot(m.time) > self.slot(self.last))
        check("not after the end", m.time < self.latest)
        check("not after the answer", self.answered is None)
        self.last = m.time

    def deadline(self):
        return min(self.start + (self.slot(self.last) + 1) * self.period, self.latest)


def one(known, draws, level, asked, vbs, now, timeout, period, late, before, how, when, still):
    """one request, from its first message to its end"""
    world = World(now, ([(late[0], None)] if how in ("later", "never") else []) +
                  ([(late[1], None)] if how == "never" else []) +
                  ([(when, "answer")] if how in ("at once", "later") else []), still)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE if known else None, level)
    earliest = world.now + timeout
    pdu = GetRequestPDU(variableBindings=asked)
    request = m.sendRequest(pdu, timeout=timeout, refreshPeriod=period)
    check("sent at once", len(net.sent) == 1)
    a = Schedule(world, net, request, timeout, period)
    net.latest = earliest

    def deliver(what):
        taken = net.push(net.sent[-1], ResponsePDU(requestID=pdu.requestID, variableBindings=vbs), ENGINE, level)
        check("discovery is not answered", known or not taken)
        if taken:
            a.answered = world.now
    world.deliver = deliver
    world.deadlines = lambda: [a.deadline()]
    if how == "early":
        deliver("answer")
    world.resumed = world.now = world.now + before
    got, value = outcome(request)
    if got == "timeout":
        check("no answer", a.answered is None)
        check("waited", world.now >= earliest)
    else:
        check("answer", got == "result" and a.answered is not None and value == vbs)
    for x in net.sent:
        if known:
            check("the same again", x.pdu is pdu and x.engine == ENGINE and x.user == USER and x.level is level)
        else:
            check("discovery", is_discovery(x))
    n = len(net.sent)
    net.finished()
    check("engines", module.engines == ([ENGINE] if known else []))
    world.now = world.now + before
    m.refresh()
    check("over", len(net.sent) == n)
    return got


ONE = dict(draws=DRAWS, level=LEVEL, asked=BINDINGS, vbs=BINDINGS, now=NOW, timeout=DELAY, period=PERIOD, late=Tup(DELAY, DELAY),
           before=DELAY, how=Choice("early", "at once", "later", "never"), when=DELAY, still=Bool())


@theorem({**OPTS, "split": ("period",)}, **ONE)
def schedule(**inputs):
    """a request to a known engine"""
    if one(True, **inputs) == "result":
        cover("answer")
    else:
        cover("timeout")


@theorem({**OPTS, "split": ("period",)}, **ONE)
def searching(**inputs):
    """a request to an engine that never says who it is"""
    check("nobody answers", one(False, **inputs) == "timeout")
    cover("timeout")


@theorem({**OPTS, "split": ("periods",)}, draws=DRAWS, asked=BINDINGS, now=NOW, timeouts=Tup(DELAY, DELAY),
         periods=Choice((1.0, 1.0), (1.0, 4.0), (4.0, 1.0)), late=DELAY, gap=DELAY, what=Choice(None, "answer", "dropped", "report", "report on the other"))
def several(draws, asked, now, timeouts, periods, late, gap, what):
    """two requests of one manager: each is retransmitted on time while one is waited for"""
    world = World(now, [(late, what)], still=True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE, noAuthNoPriv)
    x, y = GetRequestPDU(variableBindings=asked), GetNextRequestPDU(NAME)
    request = m.sendRequest(x, timeout=timeouts[0], refreshPeriod=periods[0])
    a = Schedule(world, net, request, timeouts[0], periods[0])
    world.now = world.now + gap
    box = [m.sendRequest(y, timeout=timeouts[1], refreshPeriod=periods[1])]
    b = Schedule(world, net, None, timeouts[1], periods[1])

    def deliver(what):
        if what == "report" or what == "report on the other":
            x = a if what == "report" else b
            x.last = x.start = world.now
            x.reported = True
            net.push(x.first, report(TIME_WINDOW), ENGINE, noAuthNoPriv)
            check("sent again", not x.reported)
            return
        b.answered = world.now
        if what == "answer":
            net.push(b.first, ResponsePDU(requestID=y.requestID), ENGINE, noAuthNoPriv)
        else:
            runtime.release(box)

    def deadlines():
        out = []
        if world.now < a.latest:
            out.append(a.deadline())
        if b.answered is None and world.now < b.latest:
            out.append(b.deadline())
        return out
    net.latest = b.latest
    world.deliver = deliver
    world.deadlines = deadlines
    check("times out", outcome(request)[0] == "timeout")
    cover("end")


KIND = Choice("unknown", "window", "other", "response", "nothing")
FLAGS = Choice(noAuthNoPriv, authPriv)
EVENT = Tup(KIND, Choice(ENGINE, ENGINE2), FLAGS, Bool())


class Expected:
    """what the messages that have arrived for a request make of it"""

    def __init__(self, engine):
        self.engine = engine
        self.generation = 0
        self.sent = [0]
        self.done = None
        self.pending = None

    def arrives(self, kind, sender, level, which):
        """does it make the request be sent again (and to whom)?"""
        if kind == "unknown":
            if sender == self.engine:
                return None
            self.sent.append(self.generation)
        elif kind == "window":
            if self.sent[which] != self.generation:
                return None
            self.generation += 1
            self.sent.append(self.generation - 1)
        elif kind == "other":
            if level.auth:
                self.done = WrongDigestReport if self.pending else UnknownUserNameReport
            elif self.pending is None:
                self.pending = UnknownUserNameReport
            return None
        elif kind == "nothing":
            self.sent.append(self.generation)
            return self.engine
        else:
            self.done = "response"
            return None
        self.engine = sender
        return sender


@theorem({**OPTS, "split": ("first",)}, draws=DRAWS, level=FLAGS, now=NOW, first=KIND, sender=Choice(ENGINE, ENGINE2), flags=FLAGS,
         second=EVENT, third=Choice(("window", 0), ("window", -1), ("unknown", -1)), vbs=BINDINGS)
def reports(draws, level, now, first, sender, flags, second, third, vbs):
    """what becomes of one request when messages arrive for it (or nothing does, for a period)"""
    world = World(now, [(0.5, None)], True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE, level)
    pdu = GetNextRequestPDU(NAME)
    request = m.sendRequest(pdu)
    x = Expected(ENGINE)
    for kind, engine, flag, last in ((first, sender, flags, True), second, (third[0], ENGINE, noAuthNoPriv, third[1] == -1)):
        if x.done is not None:
            break
        which = len(net.sent) - 1 if last else 0
        before = len(net.sent)
        if kind == "unknown":
            what = report(UNKNOWN_ENGINE)
        elif kind == "window":
            what = report(TIME_WINDOW)
        elif kind == "other":
            what = report(USM + (".5.0" if x.pending else ".3.0"))
        elif kind == "response":
            what = ResponsePDU(requestID=pdu.requestID, variableBindings=vbs)
        if kind == "nothing":
            world.now = world.now + 1
            m.refresh()
        else:
            check("taken", net.push(net.sent[which], what, engine, flag))
        to = x.arrives(kind, engine, flag, which)
        if to is None:
            check("not sent again", len(net.sent) == before)
        else:
            check("sent again at once", len(net.sent) == before + 1 and net.sent[-1].engine == to)
        check("registered", x.engine in module.engines)
    for s in net.sent:
        check("the same request", s.pdu is pdu and s.user == USER and s.level is level)
    n = len(net.sent)
    try:
        got, value = outcome(request)
    except UnhandledReport as err:
        check("reported", x.done is type(err) or (x.done is None and x.pending is type(err)))
        check("in the end", x.done is not None or world.now >= now + 10)
    else:
        if got == "result":
            check("answer", x.done == "response" and value == vbs)
        else:
            check("no answer", got == "timeout" and x.done is None and x.pending is None)
    for s in net.sent[n:]:
        check("retransmitted alike", s.pdu is pdu and s.user == USER and s.level is level and s.engine == x.engine)
    cover("end")
    net.finished()
    check("engines", module.engines == [m.engineID])


@theorem(OPTS, draws=DRAWS, now=NOW, flags=LEVEL, kind=Choice(*OTHERS), n=Int(0, 2 ** 32 - 1))
def exceptions(draws, now, flags, kind, n):
    """which exception tells of which report"""
    world = World(now, [], True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE, authPriv)
    request = m.sendRequest(GetRequestPDU(NAME))
    check("taken", net.push(net.sent[0], ReportPDU(VarBind(kind, Counter32(n))), ENGINE, flags))
    try:
        outcome(request)
    except UnhandledReport as err:
        check("type", type(err) is OTHERS[kind])
        check("name and value", err.name == OID.parse(kind) and err.value == Counter32(n))
        check("when", (world.now == now) == flags.auth)
        cover("told")
        return
    check("told", False)


@theorem(OPTS, draws=DRAWS, now=NOW, level=LEVEL, other=LEVEL, third=LEVEL, kind=Choice(UNKNOWN_ENGINE, TIME_WINDOW), flags=LEVEL)
def discovery(draws, now, level, other, third, kind, flags):
    """several requests to an engine that is not known"""
    world = World(now, [], True)
    runtime.use(world)
    net, module, m = manager(world, draws, None, level)
    a, b = GetRequestPDU(NAME), GetBulkRequestPDU(NAME)
    first = m.sendRequest(a)
    check("discovery", len(net.sent) == 1 and is_discovery(net.sent[0]))
    second = m.sendRequest(b, other, USER2)
    check("one discovery", len(net.sent) == 1)
    check("not an answer", not net.push(net.sent[0], ResponsePDU(NAME), ENGINE, flags))
    check("taken", net.push(net.sent[0], report(kind), ENGINE, noAuthNoPriv))
    check("both are sent", len(net.sent) == 3)
    x, y = net.sent[1], net.sent[2]
    check("first", x.pdu is a and x.engine == ENGINE and x.user == USER and x.level is level)
    check("second", y.pdu is b and y.engine == ENGINE and y.user == USER2 and y.level is other)
    world.now = world.now + 1
    m.refresh()
    again = net.sent[3:]
    check("both are retransmitted", len(again) == 2 and (again[0].pdu is a and again[1].pdu is b or again[0].pdu is b and again[1].pdu is a))
    check("taken", net.push(y, ResponsePDU(NAME, requestID=b.requestID), ENGINE, flags))
    check("answered", outcome(second)[0] == "result")
    c = GetRequestPDU(NAME)
    last = m.sendRequest(c, third, timeout=1)
    z = net.sent[5]
    check("known", len(net.sent) == 6 and z.pdu is c and z.engine == ENGINE and z.user == USER and z.level is third)
    check("taken", net.push(x, ResponsePDU(NAME, requestID=a.requestID), ENGINE, flags))
    check("answered", outcome(first)[0] == "result")
    last.close()
    net.finished()
    check("engines", module.engines == [ENGINE])
    cover("end")


@theorem(OPTS, draws=DRAWS, now=NOW, level=LEVEL, other=LEVEL, kind=Choice("unknown", "window", "response"),
         sender=Choice(ENGINE, ENGINE2), flags=LEVEL, timeout=DELAY, asks=Bool())
def synchronizing(draws, now, level, other, kind, sender, flags, timeout, asks):
    """a second request while nothing has arrived from a known engine"""
    world = World(now, [], True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE, level)
    a, b = GetRequestPDU(NAME), GetNextRequestPDU(NAME)
    first = m.sendRequest(a, timeout=timeout)
    check("sent at once", len(net.sent) == 1 and net.sent[0].pdu is a)
    second = m.sendRequest(b, other, timeout=2 ** 21)
    check("held", len(net.sent) == (1 if other.auth else 2))
    if asks:
        what = {"unknown": report(UNKNOWN_ENGINE), "window": report(TIME_WINDOW),
                "response": ResponsePDU(NAME, requestID=a.requestID)}[kind]
        net.push(net.sent[0], what, sender, flags)
        if kind == "window" and sender == ENGINE:
            check("released", len(net.sent) == 3)
            cover("released")
        if kind == "response" and (sender == ENGINE or flags.auth):
            third = m.sendRequest(GetRequestPDU(NAME), authPriv, timeout=timeout)
            check("not held", net.sent[-1].level is authPriv and net.sent[-1].engine == sender)
            cover("not held")
    world.now = world.now + timeout
    m.refresh()
    sent = [x for x in net.sent if x.pdu is b]
    check("sent in the end", len(sent) >= 1)
    n = len(net.sent)
    world.now = world.now + 1
    m.refresh()
    check("retransmitted", len(net.sent) > n and net.sent[-1].pdu is b)
    for x in sent:
        check("own properties", x.user == USER and x.level is other and (x.engine == ENGINE or x.engine == ENGINE2))
    cover("end")


@theorem(OPTS, draws=DRAWS, now=NOW, known=Bool(), senders=Tup(Choice(ENGINE, ENGINE2), Choice(ENGINE, ENGINE2)), flags=Tup(LEVEL, LEVEL))
def trust(draws, now, known, senders, flags):
    """which responses tell the manager whom to address"""
    world = World(now, [], True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE if known else None, noAuthNoPriv)
    engine, trusts = (ENGINE if known else None), False
    for i in range(2):
        sender, level = senders[i], flags[i]
        pdu = GetRequestPDU(NAME)
        request = m.sendRequest(pdu)
        if engine is None:
            check("discovery", is_discovery(net.sent[-1]))
            check("taken", net.push(net.sent[-1], report(UNKNOWN_ENGINE), ENGINE, noAuthNoPriv))
            engine, trusts = ENGINE, True
        check("to whom", net.sent[-1].pdu is pdu and net.sent[-1].engine == engine)
        check("taken", net.push(net.sent[-1], ResponsePDU(NAME, requestID=pdu.requestID), sender, level))
        check("result", outcome(request)[0] == "result")
        if level.auth or trusts:
            engine = sender
        if level.auth:
            trusts = False
    request = m.sendRequest(GetRequestPDU(NAME))
    check("to whom", net.sent[-1].engine == engine)
    check("engines", m.engineID == engine)
    cover("end")


@theorem({**OPTS, "split": ("op",)}, op=Choice("get", "getNext", "set", "getBulk"), draws=DRAWS, now=NOW, auto=Bool(),
         wait=Choice(None, True, False), level=Choice(None, noAuthNoPriv, authPriv), user=Choice(None, USER2), nr=I32, mr=I32, n=I32,
         responds=Bool(), status=Int(0, 18), index=Choice(0, 1))
def operations(op, draws, now, auto, wait, level, user, nr, mr, n, responds, status, index):
    """what each operation asks for, of whom, and whether it waits"""
    world = World(now, [(0.5, "answer")] if responds else [], True)
    runtime.use(world)
    net, module, m = manager(world, draws, ENGINE, authNoPriv, auto)

    def deliver(what):
        x = net.sent[0]
        pdu = ResponsePDU(NAME, requestID=x.pdu.requestID, errorStatus=ErrorStatus(status), errorIndex=index)
        net.push(x, pdu, ENGINE, x.level)
    world.deliver = deliver
    value = VarBind(NAME, Integer(n))
    waits = auto if wait is None else wait
    kw = dict(wait=wait, securityLevel=level, user=user)
    got = None
    try:
        if op == "set":
            got = m.set(value, (NAME, None), **kw)
        elif op == "getBulk":
            got = m.getBulk(NAME, "1.3.6.2", nonRepeaters=nr, maxRepetitions=mr, **kw)
        elif op == "getNext":
            got = m.getNext(NAME, "1.3.6.2", **kw)
        else:
            got = m.get(NAME, OID.parse("1.3.6.2"), **kw)
    except Timeout:
        check("waits", waits and not responds)
        cover("timeout")
    except ErrorResponse as err:
        check("error", waits and responds and status != 0 and err.status == status)
    x = net.sent[0]
    pdu = x.pdu
    check("to whom", x.engine == ENGINE and x.user == (USER if user is None else user) and
          x.level is (authNoPriv if level is None else level))
    kinds = {"get": GetRequestPDU, "getNext": GetNextRequestPDU, "set": SetRequestPDU, "getBulk": GetBulkRequestPDU}
    check("kind", type(pdu) is kinds[op])
    check("request ID", pdu.requestID != 0)
    if op == "set":
        check("bindings", pdu.variableBindings == VarBindList(value, VarBind(NAME, None)))
    else:
        check("names", pdu.variableBindings == VarBindList(NAME, "1.3.6.2"))
    if op == "getBulk":
        check("bulk", pdu.nonRepeaters == nr and pdu.maxRepetitions == mr)
    if got is None:
        return
    if waits:
        check("result", responds and status == 0 and got == VarBindList(NAME))
        cover("result")
    else:
        kind, value = outcome(got)
        check("handle", kind == ("timeout" if not responds else "error" if status else "result"))
        if kind == "error":
            check("which error", value.status == status)
        cover("handle")
