"""C05: BER framing: tag and length octets."""
from pyvc.api import *
from pyvc.gens import *

from specs import contracts
from snmp import ber
from snmp.ber import EncodeError, ParseError, Tag, decode_length, encode_length
from snmp.utils import subbytes

PROPERTY = "C05"

ASSUMPTIONS = [
    "lengths and tag numbers are below 2**63 (a Python object cannot be longer)",
]

CLASSES = tuple(Tag.Class)
TAGNUM = Int(0, 2 ** 63 - 1, edges=(30, 31, 127, 128))
LENGTH = Int(0, 2 ** 63 - 1, edges=(127, 128, 255, 256, 65535, 65536))
TAG = dict(number=TAGNUM, constructed=Bool(), cls=Choice(*CLASSES))


@theorem(n=LENGTH, rest=Bytes())
def length_round_trip(n, rest):
    enc = encode_length(n)
    got, tail = decode_length(subbytes(enc + rest))
    check("length", got == n)
    check("tail", tail[:] == rest)
    cover("end")


@theorem(n=LENGTH)
def length_octets(n):
    """X.690 8.1.3: short form, or the fewest octets that hold the length"""
    enc = encode_length(n)
    if n < 0x80:
        check("short form", enc == bytes([n]))
    else:
        k = len(enc) - 1
        check("long form", enc[0] == 0x80 + k)
        check("value", int.from_bytes(enc[1:], "big") == n)
        check("minimal", enc[1] != 0)
        cover("long")


@theorem(**TAG, rest=Bytes())
def tag_round_trip(number, constructed, cls, rest):
    tag = Tag(number, constructed, cls)
    got, tail = Tag.decode(subbytes(tag.encode() + rest))
    check("tag", got == tag)
    check("tail", tail[:] == rest)
    cover("end")


@theorem(number=Int(0, 30), constructed=Bool(), cls=Choice(*CLASSES))
def tag_octet(number, constructed, cls):
    """X.690 8.1.2.2"""
    enc = Tag(number, constructed, cls).encode()
    check("octet", enc == bytes([int(cls) * 64 + (32 if constructed else 0) + number]))


@theorem({"contracts": contracts.framing}, **TAG, data=Bytes(), rest=Bytes(), copy=Bool())
def frame_round_trip(number, constructed, cls, data, rest, copy):
    tag = Tag(number, constructed, cls)
    wire = ber.encode(tag, data)
    body = ber.decode(wire, tag, copy=copy)
    check("body", body[:] == data)
    got, body = ber.decode(wire, copy=copy)
    check("tag", got == tag)
    check("untyped body", body[:] == data)
    body, tail = ber.decode(wire + rest, tag, True, copy)
    check("first body", body[:] == data)
    check("tail", tail[:] == rest)
    if copy:
        check("copied", type(body) is bytes)
    else:
        check("view", body.data == wire + rest)
    cover("end")


@theorem({"contracts": contracts.framing}, **TAG, data=Bytes(), rest=Bytes(minlen=1))
def trailing_bytes_refused(number, constructed, cls, data, rest):
    tag = Tag(number, constructed, cls)
    wire = ber.encode(tag, data)
    check("refused", raises(ParseError, ber.decode, wire + rest, tag))
    check("refused without a tag", raises(ParseError, ber.decode, wire + rest))


@theorem(number=Int(0, 30), constructed=Bool(), cls=Choice(*CLASSES), data=Bytes(), cut=Int(0, 2 ** 64))
def truncation_refused(number, constructed, cls, data, cut):
    tag = Tag(number, constructed, cls)
    wire = ber.encode(tag, data)
    assume(cut < len(wire))
    check("refused", raises(ParseError, ber.decode, wire[:cut], tag))
    check("refused with leftovers", raises(ParseError, ber.decode, wire[:cut], tag, True))


@theorem({"contracts": contracts.framing}, **TAG, data=Bytes(), n2=TAGNUM, c2=Bool(), k2=Choice(*CLASSES), rest=Bytes())
def other_tag_refused(number, constructed, cls, data, n2, c2, k2, rest):
    tag = Tag(number, constructed, cls)
    other = Tag(n2, c2, k2)
    assume(not (n2 == number and c2 == constructed and k2 == cls))
    wire = ber.encode(tag, data)
    check("refused", raises(ParseError, ber.decode, wire + rest, other, True))


@theorem(data=Bytes(), view=Bool(), before=Bytes(), after=Bytes(), typed=Bool(), number=Int(0, 30), constructed=Bool(), cls=Choice(*CLASSES),
         leftovers=Bool(), copy=Bool())
def any_bytes(data, view, before, after, typed, number, constructed, cls, leftovers, copy):
    """on arbitrary bytes: ParseError, or a body and a tail that lie in the data"""
    source = data
    if view:
        source = subbytes(before + data + after, len(before), len(before) + len(data))
    try:
        result = ber.decode(source, Tag(number, constructed, cls) if typed else None, leftovers, copy)
    except ParseError:
        return
    if not typed:
        body = result[1]
        check("tag", result[0].number >= 0 and type(result[0].cls) is Tag.Class)
        check("arity", len(result) == (3 if leftovers else 2))
        tail = result[2] if leftovers else b""
    elif leftovers:
        body, tail = result
    else:
        body, tail = result, b""
    check("inside", len(body) + len(tail) + 2 <= len(data))
    check("adjacent", data[len(data) - len(body) - len(tail):] == body[:] + tail[:])
    if view and leftovers:
        check("same data", tail.data == source.data)
    cover("end")


@theorem(data=Bytes())
def any_tag(data):
    try:
        tag, tail = Tag.decode(subbytes(data))
    except ParseError:
        if len(data) == 0:
            return
        check("only a high-form tag can be incomplete", data[0] % 32 == 31)
        return
    check("class", int(tag.cls) == data[0] // 64)
    check("constructed", tag.constructed == (data[0] // 32 % 2 == 1))
    if data[0] % 32 < 31:
        check("number", tag.number == data[0] % 32)
        check("tail", tail[:] == data[1:])
    cover("end")
