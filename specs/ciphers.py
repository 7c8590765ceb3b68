"""Stand-ins for an authentication and a privacy protocol: uninterpreted functions
(symbolically) and a toy hash (natively).  They only fix the interface AuthProtocol /
PrivProtocol; what the library's own protocols do is C16 and C17."""
import hashlib

import z3

from snmp.security.usm import AuthProtocol, PrivProtocol

TRUST = ("authentication and privacy protocols stand-ins: signatures and keys are arbitrary functions of key and data, "
         "encryption is an arbitrary function of key, boots, time, salt and plaintext that decryption undoes up to padding")


class AbstractAuth(AuthProtocol):
    N = 12

    def __init__(self, key):
        self.key = key

    @classmethod
    def computeKey(cls, secret):
        return toy(b"key", secret)

    @classmethod
    def localizeKey(cls, key, engineID):
        return toy(b"loc", key, engineID)

    @property
    def msgAuthenticationParameters(self):
        return bytes(self.N)

    def sign(self, data):
        return toy(b"sign", self.key, data)


    def __eq__(self, other):
        if type(self) is not type(other):
            return NotImplemented
        return self.key == other.key


class OtherAuth(AbstractAuth):
    N = 7

    @classmethod
    def computeKey(cls, secret):
        return toy(b"key2", secret)

    @classmethod
    def localizeKey(cls, key, engineID):
        return toy(b"loc2", key, engineID)

    def sign(self, data):
        return toy(b"sign2", self.key, data)[:7]


class AbstractPriv(PrivProtocol):
    def __init__(self, key):
        self.key = key
        self.count = 0

    def encrypt(self, data, engineBoots, engineTime):
        self.count += 1
        salt = toy(b"salt", self.key, bytes(self.count))[:8]
        return seal(self.key, engineBoots, engineTime, salt, data), salt

    def decrypt(self, data, engineBoots, engineTime, salt):
        if len(salt) != 8:
            raise ValueError("salt")
        return unseal(self.key, engineBoots, engineTime, salt, data)

    def __eq__(self, other):
        if type(self) is not type(other):
            return NotImplemented
        return self.key == other.key


def toy(kind, *parts):
    """12 bytes determined by the arguments"""
    h = hashlib.md5(kind)
    for part in parts:
        h.update(len(part).to_bytes(8, "big"))
        h.update(part)
    return h.digest()[:12]


def stream(args, n):
    return hashlib.shake_128(repr(args).encode()).digest(n)


def seal(key, boots, time, salt, data):
    """an arbitrary function of its arguments"""
    data = bytes(data[:]) + bytes(-len(data) % 4)
    return bytes(x ^ y for x, y in zip(data, stream((bytes(key[:]), int(boots), int(time), bytes(salt[:])), len(data))))


def unseal(key, boots, time, salt, data):
    """gives back what was sealed under the same key, boots, time and salt, and padding"""
    data = bytes(data[:])
    return bytes(x ^ y for x, y in zip(data, stream((bytes(key[:]), int(boots), int(time), bytes(salt[:])), len(data))))


# -- symbolically: an uninterpreted function of byte strings --------------------

def ufbytes(I, name, args, n, injective=False):
    """F(args): n bytes, the same for equal arguments (and others for others, if injective)"""
    from pyvc import bytesops as B
    from pyvc.values import Atom, Sub, mkbytes, it, mkbool
    from pyvc.core import simp, zi
    p = I.p
    calls = dict(p.__dict__.get("ufcalls") or {})
    key = (name, len(args))
    for old, out in calls.get(key, ()):
        same = True
        for a, b in zip(old, args):
            if isinstance(a, int) or isinstance(b, int) or not isinstance(a, (bytes,)) and not hasattr(a, "segs"):
                c = mkbool(zi(it(a)) == zi(it(b)))
            else:
                c = B.eq(a, b)
            if not (c if isinstance(c, bool) else p.branch(c.t)):
                same = False
                break
        if same:
            return out
    out = mkbytes([Sub(Atom(p.fresh_name(name), n), 0, n)])
    if injective:
        for args_, other in calls.get(key, ()):
            c = B.eq(out, other)
            if not isinstance(c, bool):
                p.add(z3.Not(c.t))
    calls[key] = calls.get(key, ()) + ((tuple(args), out),)
    p.__dict__["ufcalls"] = calls
    return out


def m_toy(I, kind, *parts, injective=False):
    for x in parts:
        from pyvc.values import SBytes
        if not isinstance(x, (bytes, SBytes)):
            I.raise_(TypeError, "object supporting the buffer API required")
    return ufbytes(I, "toy" + kind.decode(), parts, 12, injective)


def m_seal(I, key, boots, time, salt, data):
    from pyvc.values import blen
    from pyvc.core import zi
    p = I.p
    out = ufbytes(I, "seal", (key, boots, time, salt, data), p.int("sealed", lo=0))
    p.add(zi(blen(out)) >= zi(blen(data)))
    p.add(zi(blen(out)) <= zi(blen(data)) + 3)
    return out


def m_unseal(I, key, boots, time, salt, data):
    from pyvc import bytesops as B
    from pyvc.values import it, mkbool, mkbytes, rope
    from pyvc.core import zi
    p = I.p
    calls = dict(p.__dict__.get("ufcalls") or {})
    for (k, b, t, s, plain), out in calls.get(("seal", 5), ()):
        for x, y in ((out, data), (k, key), (b, boots), (t, time), (s, salt)):
            c = mkbool(zi(it(x)) == zi(it(y))) if x is b or x is t else B.eq(x, y)
            if not (c if isinstance(c, bool) else p.branch(c.t)):
                break
        else:
            n = p.int("padding", lo=0)
            p.add(n <= 3)
            return mkbytes(rope(plain) + rope(ufbytes(I, "padding", (out,), n)))
    return ufbytes(I, "unseal", (key, boots, time, salt, data), p.int("opened", lo=0))


def models(injective=False):
    """injective: different arguments give different keys and signatures"""
    return {toy: lambda I, kind, *parts: m_toy(I, kind, *parts, injective=injective), seal: m_seal, unseal: m_unseal}
