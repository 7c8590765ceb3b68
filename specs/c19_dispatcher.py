"""C19: every message received goes to the processor of its version, and nothing received can stop the listener."""
from specs import runtime

from pyvc.api import *
from pyvc.gens import *

from snmp.asn1 import ASN1
from snmp.ber import ParseError, encode
from snmp.dispatcher import Dispatcher
from snmp.exception import *
from snmp.message import MessageProcessor, ProtocolVersion, RequestHandle
from snmp.pdu import GetRequestPDU
from snmp.smi import Integer, Sequence
from snmp.transport import Transport, TransportChannel, TransportListener
from snmp.transport.udp import UdpIPv4Socket, UdpMultiplexor
from specs import contracts
from specs.inputs import I32

PROPERTY = "C19"
TRUSTED = [runtime.TRUST]
OPTS = {"contracts": contracts.bindings, "models": runtime.locks}

VERSIONS = (ProtocolVersion.SNMPv1, ProtocolVersion.SNMPv2c, ProtocolVersion.SNMPv3)
ERRORS = (IncomingMessageError, ParseError, UnsupportedFeature, SNMPLibraryBug, AssertionError, ValueError, TypeError,
          KeyError, IndexError, AttributeError, RuntimeError, OSError, ZeroDivisionError)
SOME = Choice(None, IncomingMessageError, SNMPLibraryBug, ValueError)


class Processor(MessageProcessor):
    """accepts or refuses what it gets; the handle may fail, too"""

    def __init__(self, version):
        self.VERSION = version
        self.received = []
        self.handle = Handle()
        self.error = None

    def prepareDataElements(self, msg):
        self.received.append(msg)
        if self.error is not None:
            raise self.error("refused")
        return self, self.handle

    def prepareOutgoingMessage(self, pdu, handle, *args, **kwargs):
        if self.error is not None:
            raise self.error("refused")
        self.sent = (pdu, handle, args, kwargs)
        return b"message of " + args[0]


class Handle(RequestHandle):
    def __init__(self):
        self.pushed = []
        self.error = None

    def push(self, response):
        self.pushed.append(response)
        if self.error is not None:
            raise self.error("handle")


def packet(version, rest):
    return encode(Sequence.TAG, Integer(version).encode() + rest)


@theorem(OPTS, known=Tup(Bool(), Bool(), Bool()), version=I32, rest=Bytes(0, 65000), error=SOME, failure=SOME)
def routing(known, version, rest, error, failure):
    """a message goes to the processor of its version, and to no other; if that fails, nothing else is affected"""
    d = Dispatcher(None)
    processors = [Processor(v) for v in VERSIONS]
    for k, p in zip(known, processors):
        if k:
            d.addMessageProcessor(p)
        p.error = error
        p.handle.error = failure
    data = packet(version, rest)
    for n in 1, 2:
        d.hear(None, None, data)
        for k, p in zip(known, processors):
            mine = k and version == p.VERSION
            check("received", p.received == ([data] * n if mine else []))
            check("handed over", p.handle.pushed == ([p] * n if mine and error is None else []))
    last = Processor(ProtocolVersion.SNMPv2c)
    d.addMessageProcessor(last)
    good = packet(1, b"")
    d.hear(None, None, good)
    check("still alive", last.received == [good] and last.handle.pushed == [last])
    cover("end")


@theorem(OPTS, version=Choice(*VERSIONS), error=Choice(*ERRORS), first=Bool(), rest=Bytes(0, 65000))
def recovery(version, error, first, rest):
    """after a failure, the next message is delivered as if nothing had happened"""
    d = Dispatcher(None)
    p = Processor(version)
    d.addMessageProcessor(p)
    if first:
        p.error = error
    else:
        p.handle.error = error
    data = packet(version, rest)
    d.hear(None, None, data)
    p.error = p.handle.error = None
    p.handle = Handle()
    d.hear(None, None, data)
    check("delivered", p.handle.pushed == [p])
    d.addMessageProcessor(Processor(version))
    d.hear(None, None, data)
    check("replaced", p.handle.pushed == [p] and len(p.received) == 2)
    cover("end")


@theorem(OPTS, version=Choice(*VERSIONS), rest=Bytes(0, 65000), extra=Bytes(1, 64))
def trailing(version, rest, extra):
    """a datagram that is more than one message is nobody's"""
    d = Dispatcher(None)
    p = Processor(version)
    d.addMessageProcessor(p)
    d.hear(None, None, packet(version, rest) + extra)
    check("dropped", p.received == [])
    cover("end")


@theorem(OPTS, data=Bytes(0, 65507))
def anything(data):
    """no datagram makes the listener fail"""
    d = Dispatcher(None)
    ps = [Processor(v) for v in VERSIONS]
    for p in ps:
        d.addMessageProcessor(p)
    d.hear(None, None, data)
    n = 0
    for p in ps:
        n = n + len(p.received)
        check("as it is", all(x == data for x in p.received))
    check("at most once", n <= 1)
    good = packet(1, b"")
    d.hear(None, None, good)
    check("alive", ps[1].received[-1:] == [good])
    cover("end")


class Wire(Transport):
    def __init__(self):
        self.sent = []

    def send(self, address, data):
        self.sent.append((address, data))


@theorem(OPTS, known=Tup(Bool(), Bool(), Bool()), version=Choice(*VERSIONS), name=Bytes(0, 64), error=SOME)
def sending(known, version, name, error):
    """a message goes out once, as its processor has made it, or there is an error"""
    d = Dispatcher(None)
    processors = [Processor(v) for v in VERSIONS]
    for k, p in zip(known, processors):
        p.error = error
        if k:
            d.addMessageProcessor(p)
    wire = Wire()
    pdu, handle = GetRequestPDU(), Handle()
    ok = known[VERSIONS.index(version)]
    for n in 1, 2:
        try:
            d.sendPdu(TransportChannel(wire, "there", "here"), version, pdu, handle, name, level=3)
        except Exception as err:
            check("unknown version", isinstance(err, ValueError) if not ok else type(err) is error)
            check("nothing sent", wire.sent == [])
            cover("error")
        else:
            check("known version", ok and error is None)
            check("sent", wire.sent == [("there", b"message of " + name)] * n)
            p = processors[VERSIONS.index(version)]
            check("arguments", p.sent[0] is pdu and p.sent[1] is handle and p.sent[2] == (name,) and len(p.sent[3]) == 1 and p.sent[3]["level"] == 3)
            cover("sent")


class Endpoint(UdpIPv4Socket):
    """a socket of the stand-in network"""
    fileno = None

    def __init__(self, network, fd):
        self.network = network
        self.fileno = fd
        self.closed = 0

    def receive(self, size):
        return self.network.receive(self.fileno, size)

    def close(self):
        self.closed = self.closed + 1


class Listener(TransportListener):
    """stops listening when it has heard enough"""

    def __init__(self, multiplexor, enough):
        self.multiplexor = multiplexor
        self.enough = enough
        self.heard = []

    def hear(self, transport, address, data):
        self.heard.append((transport, address, data))
        if len(self.heard) == self.enough:
            self.multiplexor.stop()


DATAGRAM = Tup(Choice("a", "b"), Bytes(0, 1600))
QUEUE = List(DATAGRAM, maxlen=2)


@theorem({"models": lambda: {**runtime.locks(), **runtime.networking()}}, first=QUEUE, second=QUEUE, size=Int(1, 1600))
def listening(first, second, size):
    """each datagram is heard once, in order, with the socket it came to and the address it came from, until the listener is stopped"""
    queues = {1000: list(first), 1001: list(second)}
    network = runtime.Network(queues)
    runtime.connect(network)
    try:
        m = UdpMultiplexor(size)
        a, b = Endpoint(network, 1000), Endpoint(network, 1001)
        m.register(a)
        m.register(b)
        listener = Listener(m, len(first) + len(second))
        if listener.enough == 0:
            m.stop()
        m.listen(listener)
        for sock, sent in (a, first), (b, second):
            heard = [(address, data) for s, address, data in listener.heard if s is sock]
            check("heard", len(heard) == len(sent))
            for x, y in zip(heard, sent):
                check("as sent", x[0] == y[0] and x[1] == y[1][:size])
        m.close()
        check("closed", a.closed == 1 and b.closed == 1 and sorted(network.closed) == [2000, 2001])
    finally:
        runtime.disconnect()
    cover("end")
