"""C17: password to key, key localization, and truncated HMAC signatures."""
import hashlib
import hmac

from pyvc.api import *
from pyvc.gens import *

from snmp.security.usm import auth
from snmp.security.usm.auth import *
from specs import hashes
from specs.ciphers import ufbytes

PROPERTY = "C17"
TRUSTED = [hashes.TRUST]
OPTS = {"models": lambda: {**hashes.models(), computed: m_computed}}

MEGABYTE = 2 ** 20
PROTOCOLS = ((HmacMd5, hashlib.md5, 12), (HmacSha, hashlib.sha1, 12), (HmacSha224, hashlib.sha224, 16),
             (HmacSha256, hashlib.sha256, 24), (HmacSha384, hashlib.sha384, 32), (HmacSha512, hashlib.sha512, 48))
PROTOCOL = Choice(*PROTOCOLS)
HASHES = {c: alg for c, alg, _ in PROTOCOLS}


def key_of(secret, alg, digest, k):
    """is digest that of the megabyte that the secret fills, over and over?"""
    text = (secret * (MEGABYTE // len(secret) + 1))[:MEGABYTE]
    return digest == alg(text).digest()


def fed(secret, alg, digest, k):
    """the same, seen by the verifier, for which a digest is the name of the algorithm, and all that was
    hashed; k is any place in it"""
    name = hashes.NAMES[alg].encode()
    text = digest[len(name):]
    return digest[:len(name)] == name and len(text) == MEGABYTE and text[k] == secret[k % len(secret)]


def transparent(name, size, key, data):
    return name.encode() + data


@theorem({"models": lambda: {**hashes.models(), hashes.hashed: lambda I, *args: I.call(transparent, list(args), {}),
                             key_of: lambda I, *args: I.call(fed, list(args), {})},
          "split": ("p",), "native_s": 4.0, "budget": 200},
         p=PROTOCOL, secret=Bytes(1, 2 ** 21), k=Int(0, MEGABYTE - 1))
def password_to_key(p, secret, k):
    """the hash of 2**20 bytes, which are the secret over and over"""
    cls, alg, n = p
    check("key", key_of(secret, alg, cls.computeKey(secret), k))
    cover("end")


def computed(cls, alg, secret):
    """the key of a secret, by the contract established above"""
    return alg((secret * (MEGABYTE // len(secret) + 1))[:MEGABYTE]).digest()


def m_computed(I, cls, alg, secret):
    return ufbytes(I, "password " + hashes.NAMES[alg], (secret,), hashes.SIZES[alg])


def c_computed(I, args, kwargs):
    if kwargs or len(args) != 2 or args[0] not in HASHES:
        return NotImplemented
    return m_computed(I, args[0], HASHES[args[0]], args[1])


@theorem(OPTS, p=PROTOCOL, key=Bytes(1, 64), engine=Bytes(0, 64))
def localized_key(p, key, engine):
    cls, alg, n = p
    check("localized", cls.localizeKey(key, engine) == alg(key + engine + key).digest())
    cover("end")


@theorem({**OPTS, "contracts": {getattr(c.computeKey, "__func__", c): c_computed for c in HASHES}, "native_s": 3.0},
         p=PROTOCOL, secret=Bytes(1, 64), engine=Bytes(0, 64))
def localize(p, secret, engine):
    """both, in that order"""
    cls, alg, n = p
    key = computed(cls, alg, secret)
    check("localized", cls.localize(secret, engine) == alg(key + engine + key).digest())
    cover("end")


@theorem(OPTS, p=PROTOCOL, key=Bytes(1, 200), data=Bytes(), other=Bytes())
def signature(p, key, data, other):
    """the first N bytes of the HMAC, by the key given, of the data given; repeatable"""
    cls, alg, n = p
    a = cls(key)
    mac = a.sign(data)
    check("mac", mac == hmac.new(key, data, alg).digest()[:n])
    check("length", len(mac) == n)
    check("padding", a.msgAuthenticationParameters == bytes(n))
    a.sign(other)
    check("repeatable", a.sign(data) == mac)
    check("padding again", a.msgAuthenticationParameters == bytes(n))
    cover("end")
