"""Contracts of the encoding layer, used modularly by the other specifications.

Each contract is established by a theorem of its own (named beside it): callers
are checked against the contract, not against the body.
"""
import z3
from pyvc.core import simp, zi
from pyvc.values import *
from pyvc import bytesops as B
from pyvc.interp import getfield

from snmp import ber
from snmp.ber import Tag, decode_length, encode_length
from snmp.utils import subbytes


def head_of(I, data):
    """first segment of the window of a subbytes object (or None)"""
    if not isinstance(data, Inst) or data.cls is not subbytes:
        return None
    d = I.getattr(data, "data")
    if not isinstance(d, (SBytes, bytes)):
        return None
    start = it(I.getattr(data, "start"))
    try:
        _, right = B.split(rope(d), start)
    except Exception:
        return None
    right = B.drop_empty(right)
    while right and isinstance(right[0], RangeSeg):
        r = right[0]
        if I.p.must(zi(r.lo) >= zi(r.hi)):
            right = right[1:]
        elif I.p.must(zi(r.lo) < zi(r.hi)):
            tail = RangeSeg(r.mp, simp(zi(r.lo) + 1), r.hi)
            I.p.add(zi(tail.n) >= 0)
            right = list(B.elem_bytes(r.mp, r.lo)) + [tail] + list(right[1:])
        else:
            return None
    return right[0] if right else None


def advanced(I, data, n):
    """the rest of the window after n bytes"""
    d = I.getattr(data, "data")
    start, stop = it(I.getattr(data, "start")), it(I.getattr(data, "stop"))
    return I.call(subbytes, [d, mkint(simp(zi(start) + zi(n))), mkint(stop)], {})


def fits(I, data, seg):
    start, stop = it(I.getattr(data, "start")), it(I.getattr(data, "stop"))
    return I.p.must(zi(start) + zi(seg.n) <= zi(stop))


# -- C05 length_round_trip ----------------------------------------------------

def c_encode_length(I, args, kwargs):
    (n,) = args
    t = it(n)
    if isinstance(t, int):
        return NotImplemented
    if not I.p.must(z3.And(t >= 0, t < 2 ** 63)):
        return NotImplemented
    return mkbytes([EncSeg(("len", t, t), LENLEN(t))]) if lenfacts(I, t) else None


def lenfacts(I, t):
    I.p.add(z3.And(LENLEN(t) >= 1, LENLEN(t) <= 9))
    return True


def c_decode_length(I, args, kwargs):
    (data,) = args
    h = head_of(I, data)
    if isinstance(h, EncSeg) and h.obj[0] == "len" and fits(I, data, h):
        return (mkint(h.obj[1]), advanced(I, data, h.n))
    return NotImplemented


# -- C05 tag_round_trip ---------------------------------------------------------

def c_tag_encode(I, args, kwargs):
    (tag,) = args
    if not isinstance(tag, Inst):
        return NotImplemented
    n = I.p.int("taglen", lo=1)
    return mkbytes([EncSeg(("tag", tag, None), n)])


def c_tag_decode(I, args, kwargs):
    cls, data = args
    h = head_of(I, data)
    if isinstance(h, EncSeg) and h.obj[0] == "tag" and fits(I, data, h):
        t = h.obj[1]
        copy = Inst(t.cls, dict(t.fields))
        return (copy, advanced(I, data, h.n))
    return NotImplemented


def framing():
    return {
        encode_length: c_encode_length,
        decode_length: c_decode_length,
        Tag.encode: c_tag_encode,
        Tag.decode.__func__: c_tag_decode,
    }


# -- C05 frame_round_trip, trailing_bytes_refused, other_tag_refused -------------

def native_tag(tag):
    return isinstance(tag, Tag) and 0 <= tag.number < 0x1f


def c_ber_encode(I, args, kwargs):
    if kwargs or len(args) != 2 or not native_tag(args[0]):
        return NotImplemented
    tag, data = args
    if not isinstance(data, (bytes, SBytes)):
        return NotImplemented
    return mkbytes((Hdr(tag, blen(data)),) + tuple(rope(data)))


def c_ber_decode(I, args, kwargs):
    names = ("data", "expected", "leftovers", "copy")
    a = dict(zip(names, (None, None, False, True)))
    a.update(zip(names, args))
    a.update(kwargs)
    data, expected = a["data"], a["expected"]
    if not (expected is None or native_tag(expected)):
        return NotImplemented
    if not isinstance(data, (SBytes, Inst)):
        return NotImplemented
    window = data
    if isinstance(data, SBytes):
        if not isinstance(rope(data)[0] if rope(data) else None, Hdr):
            return NotImplemented
        window = I.call(subbytes, [data], {})
    h = head_of(I, window)
    if not isinstance(h, Hdr) or not native_tag(h.tag):
        return NotImplemented
    p = I.p
    d = I.getattr(window, "data")
    start, stop = it(I.getattr(window, "start")), it(I.getattr(window, "stop"))
    b0 = simp(zi(start) + zi(h.n))
    b1 = simp(zi(b0) + zi(h.blen))
    if not p.must(zi(b1) <= zi(stop)):
        return NotImplemented
    if expected is not None and expected != h.tag:
        I.raise_(ber.ParseError, "Tag does not match expected type")
    leftovers = I.truth(a["leftovers"])
    if not leftovers and p.branch(zi(b1) < zi(stop)):
        I.raise_(ber.ParseError, "Trailing bytes")
    body = I.call(subbytes, [d, mkint(b0), mkint(b1)], {})
    if I.truth(a["copy"]):
        body = mkbytes(B.slice_(d, b0, b1)) if not isinstance(B.slice_(d, b0, b1), (bytes, SBytes)) \
            else B.slice_(d, b0, b1)
    out = [body]
    if expected is None:
        out.insert(0, h.tag)
    if leftovers:
        out.append(I.call(subbytes, [d, mkint(b1), mkint(stop)], {}))
    return tuple(out) if len(out) > 1 else out[0]


# -- C07 iteration_and_equality: iterating a view is iterating the slice -----------

def c_view_iter(I, args, kwargs):
    (view,) = args
    d = I.getattr(view, "data")
    if not isinstance(d, (SBytes, bytes)):
        return NotImplemented
    start, stop = it(I.getattr(view, "start")), it(I.getattr(view, "stop"))
    return I.iter(B.slice_(d, start, stop))


def views():
    return {subbytes.__iter__: c_view_iter}


def frames():
    return {ber.encode: c_ber_encode, ber.decode: c_ber_decode, **views()}


# -- C01: a value decoded from its own encoding is equal to it ------------------------

INTLEN = z3.Function("integer.len", z3.IntSort(), z3.IntSort())


def fingerprint(v, keep):
    """a key that is the same only for the same value"""
    keep.append(v)
    if isinstance(v, SInt):
        t = simp(v.t)
        keep.append(t)
        return ("t", t.get_id()) if isinstance(t, z3.ExprRef) else ("v", t)
    if isinstance(v, (int, str, bytes, bool, type(None))):
        return ("v", v)
    if isinstance(v, (tuple, list)):
        return ("l",) + tuple(fingerprint(x, keep) for x in v)
    if isinstance(v, PTuple):
        return ("l",) + tuple(fingerprint(x, keep) for x in v.items)
    if isinstance(v, Range):
        return ("r", id(v.src), fingerprint(mkint(v.lo), keep), fingerprint(mkint(v.hi), keep))
    return ("o", id(v))


def c_serialize(I, args, kwargs):
    (obj,) = args
    if not isinstance(obj, Inst):
        return NotImplemented
    p = I.p
    value = obj.fields.get("_value")
    if isinstance(value, (SInt, int)) and len(obj.fields) == 1:
        t = zi(it(value))
        p.add(z3.And(INTLEN(t) >= 1, INTLEN(t) <= 9))
        return mkbytes([EncSeg(("body:integer", obj, t), INTLEN(t))])
    keep = []
    key = (obj.cls, tuple((k, fingerprint(v, keep)) for k, v in sorted(obj.fields.items())))
    memo = p.__dict__.setdefault("bodies", {})
    if key not in memo:
        memo[key] = (EncSeg(("body", Inst(obj.cls, dict(obj.fields)), None), p.int("bodylen", lo=0)), keep)
    return mkbytes([memo[key][0]])


def c_deserialize(I, args, kwargs):
    cls, data = args
    if kwargs:
        return NotImplemented
    if isinstance(data, Inst) and data.cls is subbytes:
        d = I.getattr(data, "data")
        data = B.slice_(d, it(I.getattr(data, "start")), it(I.getattr(data, "stop"))) \
            if isinstance(d, SBytes) else d
    if not isinstance(data, SBytes):
        return NotImplemented
    segs = rope(data)
    if len(segs) == 1 and isinstance(segs[0], EncSeg) and segs[0].obj[0].startswith("body"):
        obj = segs[0].obj[1]
        if obj.cls is cls:
            return Inst(obj.cls, dict(obj.fields))
    return NotImplemented


def values():
    from snmp.asn1 import INTEGER, OBJECT_IDENTIFIER, OCTET_STRING
    out = dict(frames())
    for c in (INTEGER, OBJECT_IDENTIFIER):
        out[c.serialize] = c_serialize
        out[c.deserialize.__func__] = c_deserialize
    return out


# -- C02 varbind: a variable binding decoded from its own encoding ----------------------

VBLEN = z3.Function("varbind.len", z3.IntSort(), z3.IntSort())


def abstract(cls, length):
    """contracts of encode and decode of a class whose round trip is proved on its own"""
    def c_encode(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, AbsInst) or obj.cls is not cls:
            return NotImplemented
        n = length(obj.term)
        I.p.add(n >= 2)
        return mkbytes([EncSeg((cls.__name__, obj, obj.term), n)])

    def c_decode(I, args, kwargs):
        names = ("cls", "data", "leftovers", "copy")
        a = dict(zip(names, (cls, None, False, True)))
        a.update(zip(names, args))
        a.update(kwargs)
        data = a["data"]
        if a["cls"] is not cls or set(a) != set(names) or not isinstance(data, (SBytes, Inst)):
            return NotImplemented
        window = I.call(subbytes, [data], {}) if isinstance(data, SBytes) else data
        h = head_of(I, window)
        if not (isinstance(h, EncSeg) and h.obj[0] == cls.__name__ and fits(I, window, h)):
            return NotImplemented
        rest = advanced(I, window, h.n)
        if I.truth(a["leftovers"]):
            return (h.obj[1], rest)
        if I.truth(rest):
            I.raise_(ber.ParseError, "Trailing bytes")
        return h.obj[1]

    return c_encode, c_decode


VBLLEN = z3.Function("varbindlist.len", z3.IntSort(), z3.IntSort())
VBLCOUNT = z3.Function("varbindlist.count", z3.IntSort(), z3.IntSort())


def either(*handlers):
    def h(I, args, kwargs):
        for f in handlers:
            r = f(I, args, kwargs)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return h


def bindings():
    from snmp.asn1 import ASN1
    from snmp.pdu import VarBind, VarBindList

    def c_len(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, AbsInst):
            return NotImplemented
        n = VBLCOUNT(obj.term)
        I.p.add(n >= 0)
        return mkint(n)

    def c_bool(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, AbsInst):
            return NotImplemented
        n = VBLCOUNT(obj.term)
        I.p.add(n >= 0)
        return mkbool(n > 0)
    e1, d1 = abstract(VarBind, VBLEN)
    e2, d2 = abstract(VarBindList, VBLLEN)
    out = dict(values())
    out[ASN1.encode] = either(e1, e2)
    out[ASN1.decode.__func__] = either(d1, d2)
    out[VarBindList.__len__] = c_len
    out[VarBindList.__bool__] = c_bool
    return out


# -- C02 message: a community message decoded from its own encoding --------------------------

MSGLEN = z3.Function("message.len", z3.IntSort(), z3.IntSort())


def in_range(I, v, lo, hi):
    return isinstance(v, (int, SInt)) and I.p.must(z3.And(zi(it(v)) >= lo, zi(it(v)) <= hi))


def sound_pdu(I, pdu):
    """a PDU for which C02 proves that decoding gives it back"""
    from snmp.pdu import BulkPDU, PDU
    if not isinstance(pdu, Inst) or not isinstance(pdu.fields.get("variableBindings"), AbsInst):
        return False
    f = pdu.fields
    if set(f) == {"requestID", "errorStatus", "errorIndex", "variableBindings"} and issubclass(pdu.cls, PDU):
        n = VBLCOUNT(f["variableBindings"].term)
        return in_range(I, f["requestID"], -2 ** 31, 2 ** 31 - 1) and in_range(I, f["errorStatus"], 0, 18) and \
            in_range(I, f["errorIndex"], 0, 2 ** 31 - 1) and \
            (it(f["errorIndex"]) == 0 or I.p.must(zi(it(f["errorIndex"])) <= n))
    if set(f) == {"requestID", "nonRepeaters", "maxRepetitions", "variableBindings"} and issubclass(pdu.cls, BulkPDU):
        return in_range(I, f["requestID"], -2 ** 31, 2 ** 31 - 1) and \
            in_range(I, f["nonRepeaters"], 0, 2 ** 31 - 1) and in_range(I, f["maxRepetitions"], 0, 2 ** 31 - 1)
    return False


def copy_of(obj):
    return Inst(obj.cls, dict(obj.fields))


def c_version(I, args, kwargs):
    """the version of a message, proved in C02 message and C03 message"""
    from snmp.message import ProtocolVersion
    from snmp.message.version import VersionOnlyMessage
    if len(args) != 2 or kwargs or args[0] is not VersionOnlyMessage or not isinstance(args[1], SBytes):
        return NotImplemented
    segs = rope(args[1])
    if len(segs) != 1 or not isinstance(segs[0], EncSeg) or segs[0].obj[0] not in ("message", "v3message"):
        return NotImplemented
    kind, obj, _ = segs[0].obj
    return Inst(VersionOnlyMessage, {"version": obj.fields["version"] if kind == "message" else ProtocolVersion.SNMPv3})


def messages():
    from snmp.asn1 import ASN1
    from snmp.message import Message

    def c_encode(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, Inst) or obj.cls is not Message:
            return NotImplemented
        f = obj.fields
        if set(f) != {"version", "community", "pdu"} or not sound_pdu(I, f["pdu"]) or \
                not in_range(I, f["version"], 0, 1) or not isinstance(f["community"], (bytes, SBytes)) or \
                not I.p.must(zi(blen(f["community"])) <= 0xffff):
            return NotImplemented
        # the same content has the same encoding
        pdu = f["pdu"]
        key = (pdu.cls, fingerprint(tuple(v for k, v in sorted(pdu.fields.items())), I.p.ex.keep),
               fingerprint(f["version"], I.p.ex.keep), tuple(rope(f["community"])))
        memo = I.p.__dict__.setdefault("bodies", {})
        for k, seg in memo.items():
            if k[:1] == ("message",) and k[1:4] == key[:3] and I.truth(I.eq(seg.obj[1].fields["community"], f["community"])):
                return mkbytes([seg])
        snap = copy_of(obj)
        snap.fields["pdu"] = copy_of(pdu)
        seg = EncSeg(("message", snap, None), I.p.int("msglen", lo=8))
        memo[("message",) + key[:3] + (len(memo),)] = seg
        return mkbytes([seg])

    def c_decode(I, args, kwargs):
        names = ("cls", "data")
        a = dict(zip(names, args))
        a.update(kwargs)
        if a.get("cls") is not Message or set(a) - {"cls", "data", "types"}:
            return NotImplemented
        data = a["data"]
        if isinstance(data, Inst) and data.cls is subbytes:
            d = I.getattr(data, "data")
            data = mkbytes(B.slice_(d, it(I.getattr(data, "start")), it(I.getattr(data, "stop")))) \
                if isinstance(d, SBytes) else d
        if not isinstance(data, SBytes):
            return NotImplemented
        segs = rope(data)
        if len(segs) != 1 or not isinstance(segs[0], EncSeg) or segs[0].obj[0] != "message":
            return NotImplemented
        obj = segs[0].obj[1]
        types = a.get("types")
        from pyvc import lib
        known = lib.dict_lookup(I, types, obj.fields["pdu"].cls.TAG) if types is not None else lib.MISSING
        if known is lib.MISSING:
            I.raise_(ber.ParseError, "Invalid PDU type")
        if known is not obj.fields["pdu"].cls:
            return NotImplemented
        out = copy_of(obj)
        out.fields["pdu"] = copy_of(obj.fields["pdu"])
        return out

    out = bindings()
    out[ASN1.encode] = either(c_encode, out[ASN1.encode])
    out[ASN1.decode.__func__] = either(c_version, c_decode, out[ASN1.decode.__func__])
    return out


# -- C03 message: an SNMPv3 message decoded from its own encoding ------------------------------

def v3messages():
    from snmp.asn1 import ASN1
    from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message
    from snmp.smi import OctetString

    def sound_octets(I, o):
        return isinstance(o, Inst) and o.cls is OctetString and isinstance(o.fields.get("_data"), (bytes, SBytes)) \
            and I.p.must(zi(blen(o.fields["_data"])) <= 0xffff)

    def sound(I, m):
        f = m.fields
        if set(f) != {"header", "scopedPDU", "encryptedPDU", "securityParameters", "securityEngineID",
                      "securityName"}:
            return False
        h = f["header"]
        if not isinstance(h, Inst) or h.cls is not HeaderData or not in_range(I, h.fields["id"], 0, 2 ** 31 - 1) or \
                not in_range(I, h.fields["maxSize"], 484, 2 ** 31 - 1) or int(h.fields["securityModel"]) != 3:
            return False
        if not sound_octets(I, f["securityParameters"]):
            return False
        if I.truth(I.getattr(h.fields["flags"], "privFlag")):
            return sound_octets(I, f["encryptedPDU"])
        s = f["scopedPDU"]
        return isinstance(s, Inst) and s.cls is ScopedPDU and sound_pdu(I, s.fields["pdu"]) and \
            all(isinstance(s.fields[k], (bytes, SBytes)) and I.p.must(zi(blen(s.fields[k])) <= 0xffff)
                for k in ("contextEngineID", "contextName"))

    def deep(o):
        return Inst(o.cls, {k: deep(v) if isinstance(v, Inst) else v for k, v in o.fields.items()}) \
            if isinstance(o, Inst) else o

    def c_encode(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, Inst) or obj.cls is not SNMPv3Message or not sound(I, obj):
            return NotImplemented
        return mkbytes([EncSeg(("v3message", deep(obj), None), I.p.int("msglen", lo=8))])

    def c_decode(I, args, kwargs):
        cls, data = args[:2]
        if len(args) > 2 or kwargs or cls is not SNMPv3Message or not isinstance(data, SBytes):
            return NotImplemented
        segs = rope(data)
        if len(segs) != 1 or not isinstance(segs[0], EncSeg) or segs[0].obj[0] != "v3message":
            return NotImplemented
        m = deep(segs[0].obj[1])
        m.fields["securityEngineID"] = m.fields["securityName"] = None
        if I.truth(I.getattr(m.fields["header"].fields["flags"], "privFlag")):
            m.fields["scopedPDU"] = None
        else:
            m.fields["encryptedPDU"] = None
        m.fields["securityParameters"].fields["_original"] = Opaque("the place of the security parameters")
        return m

    out = bindings()
    out[ASN1.encode] = either(c_encode, out[ASN1.encode])
    out[SNMPv3Message.decode.__func__] = c_decode
    out[ASN1.decode.__func__] = either(c_version, out[ASN1.decode.__func__])
    return out


# -- C05 any_bytes, any_tag: framing of arbitrary bytes ---------------------------

def c_ber_decode_any(I, args, kwargs):
    names = ("data", "expected", "leftovers", "copy")
    a = dict(zip(names, (None, None, False, True)))
    a.update(zip(names, args))
    a.update(kwargs)
    data, expected = a["data"], a["expected"]
    if not (expected is None or native_tag(expected)):
        return NotImplemented
    if not (isinstance(data, (SBytes, bytes)) or isinstance(data, Inst) and data.cls is subbytes):
        return NotImplemented
    window = I.call(subbytes, [data], {})
    p = I.p
    if p.choose(2) == 0:
        I.raise_(ber.ParseError, "invalid encoding")
    d = I.getattr(window, "data")
    start, stop = it(I.getattr(window, "start")), it(I.getattr(window, "stop"))
    b0, b1 = p.int("body"), p.int("rest")
    p.add(z3.And(zi(start) + 2 <= b0, b0 <= b1, b1 <= zi(stop)))
    leftovers = I.truth(a["leftovers"])
    if not leftovers:
        p.add(b1 == zi(stop))
    body = I.call(subbytes, [d, mkint(b0), mkint(b1)], {})
    if I.truth(a["copy"]):
        body = I.getitem(body, slice(None, None, None))
    out = [body]
    if expected is None:
        out.insert(0, any_tag(I))
    if leftovers:
        out.append(I.call(subbytes, [d, mkint(b1), mkint(stop)], {}))
    return tuple(out) if len(out) > 1 else out[0]


def any_tag(I):
    p = I.p
    cls = tuple(Tag.Class)[p.choose(4)]
    return I.call(Tag, [mkint(p.int("number", lo=0)), mkbool(p.bool("constructed")), cls], {})


def c_tag_decode_any(I, args, kwargs):
    cls, data = args
    p = I.p
    if p.choose(2) == 0:
        I.raise_(ber.ParseError, "invalid tag")
    start, stop = it(I.getattr(data, "start")), it(I.getattr(data, "stop"))
    b = p.int("after")
    p.add(z3.And(zi(start) + 1 <= b, b <= zi(stop)))
    return (any_tag(I), I.call(subbytes, [I.getattr(data, "data"), mkint(b), mkint(stop)], {}))


def anyframes():
    return {ber.decode: c_ber_decode_any, Tag.decode.__func__: c_tag_decode_any}


# -- C04 leaf, varbind, bindings, pdu: decoding arbitrary bytes -------------------------

def anyvalues(*classes):
    """decode and deserialize of these classes: a decoding error, or something of the class"""
    from snmp.asn1 import ASN1
    from snmp.smi import BoundedInteger

    def some(I, cls):
        if I.p.choose(2) == 0:
            I.raise_(ber.ParseError, "invalid value")
        if issubclass(cls, BoundedInteger):
            lo, hi = (-2 ** (cls.BITS - 1), 2 ** (cls.BITS - 1)) if cls.SIGNED else (0, 2 ** cls.BITS)
            return Inst(cls, {"_value": mkint(I.p.int("value", lo=lo, hi=hi - 1))})
        return AbsInst(cls, I.p.int(cls.__name__))

    def c_decode(I, args, kwargs):
        names = ("cls", "data", "leftovers", "copy")
        a = dict(zip(names, (None, None, False, True)))
        a.update(zip(names, args))
        a.update(kwargs)
        if a["cls"] not in classes or set(a) - set(names) - {"types"}:
            return NotImplemented
        got = c_ber_decode_any(I, [a["data"], a["cls"].TAG], {"leftovers": a["leftovers"], "copy": False})
        value = some(I, a["cls"])
        return (value, got[1]) if I.truth(a["leftovers"]) else value

    def c_deserialize(I, args, kwargs):
        if kwargs or args[0] not in classes:
            return NotImplemented
        return some(I, args[0])

    def c_len(I, args, kwargs):
        (obj,) = args
        if not isinstance(obj, AbsInst):
            return NotImplemented
        n = VBLCOUNT(obj.term)
        I.p.add(n >= 0)
        return mkint(n)
    out = {**anyframes(), ASN1.decode.__func__: c_decode}
    for c in classes:
        if "__len__" in c.__dict__:
            out[c.__len__] = c_len
        f = c.deserialize.__func__
        out[f] = c_deserialize
    return out
