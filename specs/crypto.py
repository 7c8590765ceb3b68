"""The external ciphers, as both backends see them.

Natively: pycryptodome, and the cffi extension compiled from the current declarations into
a scratch directory.  Symbolically: a cipher is an arbitrary function of key, IV and data
that keeps the length and can be inverted; a prefix of the data gives a prefix of the result.
"""
import os
import shutil
import sys
import tempfile

from Crypto.Cipher import AES, DES

import z3
from pyvc.core import Unsupported, PathEnd, simp, zi
from pyvc.values import *
from pyvc import bytesops as B
from pyvc.interp import ModelObj

TRUST = ("AES-CFB128 and DES-CBC (pycryptodome, OpenSSL EVP): length-preserving, determined by key, IV and data, "
         "decryption inverts encryption under the same key and IV, a prefix of the data gives a prefix of the "
         "result; OpenSSL's padding-enabled CBC update gives whole blocks only and withholds the last block when "
         "decrypting; os.urandom gives arbitrary bytes of the length asked for")


def extension():
    """snmp.openssl, compiled from the declarations in the tree under test"""
    import snmp
    root = os.path.dirname(os.path.abspath(snmp.__file__))
    scratch = tempfile.mkdtemp(prefix="openssl-ext-")
    try:
        import importlib.util
        spec = importlib.util.spec_from_file_location("_openssl_decl", os.path.join(root, "cffi", "openssl.py"))
        decl = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(decl)
        so = decl.ffi.compile(tmpdir=scratch)
        spec = importlib.util.spec_from_file_location("snmp.openssl", so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["snmp.openssl"] = mod
        spec.loader.exec_module(mod)
        snmp.openssl = mod
        return mod
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- the symbolic cipher ----------------------------------------------------------

def holds(I, t):
    return t if isinstance(t, bool) else I.p.branch(t.t)


def crypt(I, name, key, iv, data, encrypt):
    p = I.p
    for x in (key, iv, data):
        if not isinstance(x, (bytes, SBytes)):
            x = I.call(bytes, [x], {})
    recs = dict(p.__dict__.get("ufcalls") or {})
    for k, v, plain, cipher in recs.get(name, ()):
        if not (holds(I, B.eq(k, key)) and holds(I, B.eq(v, iv))):
            continue
        src, dst = (plain, cipher) if encrypt else (cipher, plain)
        n, m = zi(blen(data)), zi(blen(src))
        if not p.branch(n >= m):
            if holds(I, B.eq(B.slice_(src, 0, simp(n)), data)):
                return B.slice_(dst, 0, simp(n))
            continue
        if holds(I, B.eq(B.slice_(data, 0, simp(m)), src)):
            if p.branch(n == m):
                return dst
            extra = mkbytes([Sub(Atom(p.fresh_name(name), simp(n - m)), 0, simp(n - m))])
            return mkbytes(list(rope(dst)) + list(rope(extra)))
    out = mkbytes([Sub(Atom(p.fresh_name(name), blen(data)), 0, blen(data))])
    recs[name] = recs.get(name, ()) + ((key, iv, data, out) if encrypt else (key, iv, out, data),)
    p.__dict__["ufcalls"] = recs
    return out


class CipherModel(ModelObj):
    """pycryptodome's cipher object, for one call"""

    def __init__(self, name, key, iv):
        self.name = name
        self.key = key
        self.iv = iv
        self.used = False

    def snapshot(self):
        return self.used

    def restore(self, v):
        self.used = v

    def run(self, I, data, encrypt):
        if self.used:
            raise Unsupported("a cipher object used twice")
        I.write(self, "used")
        self.used = True
        if self.name == "des" and not I.p.branch(zi(blen(data)) % 8 == 0):
            I.raise_(ValueError, "Data must be padded to 8 byte boundary in CBC mode")
        return crypt(I, self.name, self.key, self.iv, data, encrypt)

    def getattr(self, I, name):
        if name in ("encrypt", "decrypt"):
            return Builtin(name, lambda data: self.run(I, data, name == "encrypt"))
        raise Unsupported(f"cipher.{name}")


def need(I, cond, what):
    if not (cond if isinstance(cond, bool) else I.p.branch(cond)):
        I.raise_(ValueError, what)


def m_aes(I, key, mode, iv=None, segment_size=8, **kw):
    if mode != AES.MODE_CFB or kw or iv is None:
        raise Unsupported("AES mode")
    if segment_size != 128:
        return CipherModel(f"aes-cfb{segment_size}", key, iv)
    n = zi(blen(key))
    need(I, z3.Or(n == 16, n == 24, n == 32), "Incorrect AES key length")
    need(I, zi(blen(iv)) == 16, "Incorrect IV length")
    return CipherModel("aes", key, iv)


def m_des(I, key, mode, iv=None, **kw):
    if mode != DES.MODE_CBC or kw or iv is None:
        raise Unsupported("DES mode")
    need(I, zi(blen(key)) == 8, "Incorrect DES key length")
    need(I, zi(blen(iv)) == 8, "Incorrect IV length")
    return CipherModel("des", key, iv)


# -- the cffi interface to OpenSSL --------------------------------------------------

class MemoryError_(Exception):
    """the C code would read or write outside the buffers it is given"""


class Pointer(ModelObj):
    """a buffer (or an int*) allocated by ffi.new"""

    def __init__(self, size):
        self.size = size
        self.value = 0
        self.content = None

    def snapshot(self):
        return self.value, self.content

    def restore(self, v):
        self.value, self.content = v

    def getitem(self, I, k):
        if k != 0 or self.size is not None:
            raise Unsupported("pointer arithmetic")
        return self.value

    def eq(self, I, other):
        return self is other

    def bytes(self, I):
        raise Unsupported("bytes of a pointer")


class View(ModelObj):
    def __init__(self, ptr, n):
        self.ptr = ptr
        self.n = n

    def bytes(self, I):
        c = self.ptr.content
        if c is None:
            if I.p.branch(zi(it(self.n)) == 0):
                return b""
            raise Unsupported("reading a buffer that was never written")
        if not I.p.branch(zi(it(self.n)) <= zi(blen(c))):
            return mkbytes(list(rope(c)) + [Rep(0, simp(zi(it(self.n)) - zi(blen(c))))])
        return B.slice_(c, 0, it(self.n))

    def getitem(self, I, k):
        return I.getitem(self.bytes(I), k)


class Context(ModelObj):
    def __init__(self):
        self.state = None

    def snapshot(self):
        return self.state

    def restore(self, v):
        self.state = v

    def eq(self, I, other):
        return self is other


SIZES = {"aes": (16, 16), "des": (8, 8)}


class CipherType:
    def __init__(self, name):
        self.name = name


AES_TYPE, DES_TYPE = CipherType("aes"), CipherType("des")


def openssl_models(mod):
    lib, ffi = mod.lib, mod.ffi

    def new(I, decl, n=None):
        if "char" in decl and "[" in decl and n is not None:
            return Pointer(it(n))
        if decl.replace(" ", "") == "int*":
            return Pointer(None)
        raise Unsupported(f"ffi.new({decl!r})")

    def init(encrypt):
        def f(I, ctx, cipher, key, iv):
            if not isinstance(ctx, Context) or not isinstance(cipher, CipherType):
                raise Unsupported("EVP init of a foreign object")
            k, v = SIZES[cipher.name]
            if not I.p.branch(zi(blen(key)) >= k) or not I.p.branch(zi(blen(iv)) >= v):
                I.raise_(MemoryError_, "key or IV shorter than the cipher reads")
            I.write(ctx, "state")
            ctx.state = (encrypt, cipher.name, B.slice_(key, 0, k), B.slice_(iv, 0, v))
            return 1
        return f

    def update(encrypt):
        def f(I, ctx, out, outl, data, inl):
            st = ctx.state
            if st is None or st[0] != encrypt:
                return 0
            I.write(ctx, "state")
            ctx.state = None            # a second update is not modelled
            n = zi(it(inl))
            if not I.p.branch(n <= zi(blen(data))):
                I.raise_(MemoryError_, "reads past the input")
            data = B.slice_(data, 0, simp(n))
            if st[1] == "aes":
                m = n
            elif encrypt:
                m = n - n % 8
            else:
                m = z3.If(n % 8 == 0, z3.If(n == 0, 0, n - 8), n - n % 8)
            m = simp(m)
            if not I.p.branch(zi(m) <= zi(out.size)):
                I.raise_(MemoryError_, "writes past the output buffer")
            I.write(out, "content")
            I.write(outl, "value")
            outl.value = mkint(m)
            out.content = crypt(I, st[1], st[2], st[3], B.slice_(data, 0, m), encrypt)
            return 1
        return f

    def buffer(I, ptr, n=None):
        return View(ptr, ptr.size if n is None else n)

    return {
        lib.EVP_CIPHER_CTX_new: lambda I: Context(),
        lib.EVP_CIPHER_CTX_free: lambda I, c: None,
        lib.EVP_EncryptInit: init(True), lib.EVP_DecryptInit: init(False),
        lib.EVP_EncryptUpdate: update(True), lib.EVP_DecryptUpdate: update(False),
        lib.EVP_aes_128_cfb128: lambda I: AES_TYPE, lib.EVP_des_cbc: lambda I: DES_TYPE,
        ffi.new: new, ffi.buffer: buffer,
    }


REAL = os.urandom
FIRST = []


def draw(n):
    got = FIRST.pop()[:n] if FIRST else b""
    return got + REAL(n - len(got))


os.urandom = draw


def entropy(first):
    """the next random bytes asked for start with these"""
    FIRST[:] = [first]


def m_entropy(I, first):
    I.p.__dict__["entropy"] = first


def urandom(I, n):
    first = I.p.__dict__.pop("entropy", None)
    n = it(n)
    if first is not None:
        m = it(I.call(len, [first], {}))
        if isinstance(n, int) and isinstance(m, int) and n == m:
            return first
        raise Unsupported("another number of random bytes")
    return mkbytes([Sub(Atom(I.p.fresh_name("urandom"), n), 0, n)])


def models(mod=None):
    out = {AES.new: m_aes, DES.new: m_des, draw: urandom, entropy: m_entropy}
    if mod is not None:
        out.update(openssl_models(mod))
    return out
