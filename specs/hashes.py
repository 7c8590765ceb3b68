"""Stand-ins for hashlib and hmac: a hash is an arbitrary function of the bytes fed to it."""
import hashlib
import hmac

from pyvc.core import Unsupported
from pyvc.values import *
from pyvc.interp import ModelObj

SIZES = {hashlib.md5: 16, hashlib.sha1: 20, hashlib.sha224: 28, hashlib.sha256: 32, hashlib.sha384: 48,
         hashlib.sha512: 64}
NAMES = {hashlib.md5: "md5", hashlib.sha1: "sha1", hashlib.sha224: "sha224", hashlib.sha256: "sha256",
         hashlib.sha384: "sha384", hashlib.sha512: "sha512"}
TRUST = ("hashlib.*, hmac: the digest is a function of the algorithm, the key and the concatenation of the bytes "
         "fed in, of the documented size")


class HashState:
    """what the verifier executes in place of a hashlib / hmac object"""

    def __init__(self, name, size, key, data):
        self.name = name
        self.digest_size = size
        self.key = key
        self.content = bytearray(data)

    def update(self, data):
        self.content += data

    def digest(self):
        return hashed(self.name, self.digest_size, self.key, bytes(self.content))


def hashed(name, size, key, data):
    raise NotImplementedError()


def m_hashed(I, name, size, key, data):
    from specs.ciphers import ufbytes
    return ufbytes(I, name, (key, data), size)


def m_hash(alg):
    def new(I, data=b"", usedforsecurity=True):
        return I.call(HashState, [NAMES[alg], SIZES[alg], b"", data], {})
    return new


def algorithm(I, digestmod):
    if isinstance(digestmod, str):
        for f, n in NAMES.items():
            if n == digestmod.lower():
                return f
    for f in NAMES:
        if f is digestmod:
            return f
    raise Unsupported(f"hmac with {digestmod!r}")


def m_hmac(I, key, msg=None, digestmod=None):
    alg = algorithm(I, digestmod)
    return I.call(HashState, ["hmac-" + NAMES[alg], SIZES[alg], key, b"" if msg is None else msg], {})


def m_hmac_digest(I, key, msg, digest):
    return I.call(I.getattr(m_hmac(I, key, msg, digest), "digest"), [], {})


def m_new(I, name, data=b"", **kw):
    return m_hash(algorithm(I, name))(I, data)


def models():
    out = {f: m_hash(f) for f in SIZES}
    out.update({hashed: m_hashed, hmac.new: m_hmac, hmac.digest: m_hmac_digest, hashlib.new: m_new})
    return out
