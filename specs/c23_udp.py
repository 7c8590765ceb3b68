"""C23: UDP addresses: normalized, validated, defaulted."""
import socket

from pyvc.api import *
from pyvc.gens import *

from snmp.transport import AddressUsage, TransportDomain
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket
from specs import stdlib

PROPERTY = "C23"
TRUSTED = [stdlib.PTON_TRUST]
OPTS = {"models": stdlib.addresses}

CLASS = Choice(UdpIPv4Socket, UdpIPv6Socket)
POOL = ("", "127.0.0.1", "0.0.0.0", "10.0.0.256", "::1", "::", "fe80::1", "localhost", "1.2.3", "255.255.255.255",
        "12.34.56.78", " 1.2.3.4", "1.2.3.4 ", "::ffff:1.2.3.4", "g::", "no\u00ebl")
ADDRESS = Text(pool=POOL)
PORT = Int(-2 ** 20, 2 ** 20, edges=(-1, 0, 1, 161, 162, 65535, 65536))
USAGE = Choice(None, AddressUsage.LISTENER, AddressUsage.TRAP_LISTENER, AddressUsage.SENDER)


def valid(family, text):
    try:
        socket.inet_pton(family, text)
    except (OSError, ValueError):
        return False
    return True


def default_of(cls):
    return "0.0.0.0" if cls is UdpIPv4Socket else "::"


def family_of(cls):
    return socket.AF_INET if cls is UdpIPv4Socket else socket.AF_INET6


def listens(usage):
    return usage is AddressUsage.LISTENER or usage is AddressUsage.TRAP_LISTENER


@theorem(OPTS, cls=CLASS, addr=ADDRESS, port=PORT, usage=USAGE)
def address_and_port(cls, addr, port, usage):
    """a pair is kept if it is a valid address and port for its use, and refused otherwise"""
    good = valid(family_of(cls), addr) or addr == "" and not listens(usage)
    good = good and (0 if not listens(usage) else 1) <= port <= 65535
    try:
        result = cls.normalizeAddress((addr, port), usage)
    except ValueError:
        check("refused", not good)
        cover("refused")
        return
    check("accepted", good)
    check("address", result[0] == (addr if addr != "" else default_of(cls)))
    check("port", result[1] == port)
    check("valid", valid(family_of(cls), result[0]))
    check("idempotent", cls.normalizeAddress(result, usage) == result)
    cover("accepted")


@theorem(OPTS, cls=CLASS, addr=ADDRESS, usage=USAGE)
def address_only(cls, addr, usage):
    """an address alone gets the default port of its use"""
    good = valid(family_of(cls), addr) or addr == "" and not listens(usage)
    try:
        result = cls.normalizeAddress(addr, usage)
    except ValueError:
        check("refused", not good)
        cover("refused")
        return
    check("accepted", good)
    check("address", result[0] == (addr if addr != "" else default_of(cls)))
    port = 161 if usage is AddressUsage.LISTENER else 162 if usage is AddressUsage.TRAP_LISTENER else 0
    check("port", result[1] == port)
    cover("accepted")


@theorem(OPTS, cls=CLASS, usage=USAGE)
def nothing_given(cls, usage):
    port = 161 if usage is AddressUsage.LISTENER else 162 if usage is AddressUsage.TRAP_LISTENER else 0
    check("default", cls.normalizeAddress(None, usage) == (default_of(cls), port))
    cover("end")


@theorem(OPTS, cls=CLASS, what=Choice(5, 1.5, b"127.0.0.1", ["127.0.0.1"], object()), usage=USAGE, port=Int(1, 65535))
def not_text(cls, what, usage, port):
    """anything but text is refused as an address"""
    check("alone", raises(TypeError, cls.normalizeAddress, what, usage))
    check("in a pair", raises(TypeError, cls.normalizeAddress, (what, port), usage))
    cover("end")


@theorem()
def domains():
    check("IPv4", TransportDomain.UDP_IPv4.address_family == socket.AF_INET
          and UdpIPv4Socket.DOMAIN is TransportDomain.UDP_IPv4)
    check("IPv6", TransportDomain.UDP_IPv6.address_family == socket.AF_INET6
          and UdpIPv6Socket.DOMAIN is TransportDomain.UDP_IPv6)
    cover("end")
