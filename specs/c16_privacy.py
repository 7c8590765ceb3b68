"""C16: decryption undoes encryption; keys, IVs and salts as the standards define; salts do not repeat."""
from Crypto.Cipher import AES, DES

from pyvc.api import *
from pyvc.gens import *

from specs import crypto

OPENSSL = crypto.extension()

from snmp.security.usm import DecryptionError
import snmp.security.usm.priv.openssl.aes as oa
import snmp.security.usm.priv.openssl.des as od
import snmp.security.usm.priv.pycryptodome.aes as pa
import snmp.security.usm.priv.pycryptodome.des as pd

PROPERTY = "C16"
TRUSTED = [crypto.TRUST]
OPTS = {"models": lambda: crypto.models(OPENSSL)}

M31 = 2 ** 31
AES_CLASS = Choice(oa.AesCfb128, pa.AesCfb128)
DES_CLASS = Choice(od.DesCbc, pd.DesCbc)
BOOTS = Int(0, M31 - 1, edges=(0, 1, 255, 256, M31 - 1))
DATA = Bytes(0, 3000)


def NEAR(n):
    """bytes of a counter; often just below a power of two"""
    return Bytes(n, n, patterns=[(256 ** n + (1 << b) - d).to_bytes(n + 1, "big")[1:] for b in range(7, 8 * n + 1) for d in (1, 2, 3)
                                 if b < 8 * n] + [(256 ** n - d).to_bytes(n, "big") for d in (1, 2, 3)] * 20)


@theorem(OPTS, cls=AES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS)
def aes_round_trip(cls, key, data, b, t):
    """another object with the same key recovers the plaintext"""
    ciphertext, salt = cls(key).encrypt(data, b, t)
    check("plaintext", cls(key).decrypt(ciphertext, b, t, salt) == data)
    cover("end")


@theorem(OPTS, cls=AES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS)
def aes_reference(cls, key, data, b, t):
    """CFB128 under the first 16 bytes of the key, IV = boots, time, salt"""
    ciphertext, salt = cls(key).encrypt(data, b, t)
    check("salt", len(salt) == 8)
    check("length", len(ciphertext) == len(data))
    iv = b.to_bytes(4, "big") + t.to_bytes(4, "big") + salt
    check("ciphertext", ciphertext == AES.new(key[:16], AES.MODE_CFB, iv=iv, segment_size=128).encrypt(data))
    cover("end")


@theorem(OPTS, cls=AES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS, salt=Bytes(0, 16))
def aes_decryption(cls, key, data, b, t, salt):
    """any bytes are decrypted; only a salt of the wrong length is refused"""
    try:
        plain = cls(key).decrypt(data, b, t, salt)
    except DecryptionError:
        check("salt length", len(salt) != 8)
        return
    check("accepted", len(salt) == 8)
    iv = b.to_bytes(4, "big") + t.to_bytes(4, "big") + salt
    check("plaintext", plain == AES.new(key[:16], AES.MODE_CFB, iv=iv, segment_size=128).decrypt(data))
    cover("end")


@theorem(OPTS, cls=DES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS, t2=BOOTS)
def des_round_trip(cls, key, data, b, t, t2):
    """the plaintext comes first; what follows is padding"""
    ciphertext, salt = cls(key).encrypt(data, b, t)
    plain = cls(key).decrypt(ciphertext, b, t2, salt)
    check("plaintext", plain[:len(data)] == data)
    check("padding", len(plain) <= len(data) + 16)
    cover("end")


@theorem(OPTS, cls=DES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS)
def des_reference(cls, key, data, b, t):
    """CBC under the first 8 bytes of the key, IV = next 8 bytes xor salt, salt = boots and a counter"""
    ciphertext, salt = cls(key).encrypt(data, b, t)
    check("salt", len(salt) == 8 and salt[:4] == b.to_bytes(4, "big"))
    check("length", len(ciphertext) % 8 == 0 and 0 < len(ciphertext) - len(data) <= 8)
    iv = bytes([key[8] ^ salt[0], key[9] ^ salt[1], key[10] ^ salt[2], key[11] ^ salt[3],
                key[12] ^ salt[4], key[13] ^ salt[5], key[14] ^ salt[6], key[15] ^ salt[7]])
    padded = data + bytes(len(ciphertext) - len(data))
    check("ciphertext", ciphertext == DES.new(key[:8], DES.MODE_CBC, iv=iv).encrypt(padded))
    cover("end")


@theorem(OPTS, cls=DES_CLASS, key=Bytes(16, 64), data=DATA, b=BOOTS, t=BOOTS, salt=Bytes(0, 16))
def des_decryption(cls, key, data, b, t, salt):
    """whole blocks are decrypted; a partial block or a salt of the wrong length is refused"""
    try:
        plain = cls(key).decrypt(data, b, t, salt)
    except DecryptionError:
        check("refused", len(salt) != 8 or len(data) % 8 != 0)
        return
    check("accepted", len(salt) == 8 and len(data) % 8 == 0)
    iv = bytes([key[8] ^ salt[0], key[9] ^ salt[1], key[10] ^ salt[2], key[11] ^ salt[3],
                key[12] ^ salt[4], key[13] ^ salt[5], key[14] ^ salt[6], key[15] ^ salt[7]])
    check("plaintext", plain[:len(data)] == DES.new(key[:8], DES.MODE_CBC, iv=iv).decrypt(data))
    cover("end")


@theorem(OPTS, cls=Choice(oa.AesCfb128, pa.AesCfb128, od.DesCbc, pd.DesCbc), key=Bytes(0, 64))
def keys_long_enough(cls, key):
    """a key of fewer than 16 bytes is refused"""
    try:
        cls(key)
    except ValueError:
        check("short", len(key) < 16)
        return
    check("long enough", len(key) >= 16)
    cover("end")


@theorem(OPTS, cls=AES_CLASS, key=Bytes(16, 16), first=NEAR(8), history=List(Tup(DATA, BOOTS, BOOTS), maxlen=12),
         a=DATA, c=DATA, b1=BOOTS, t1=BOOTS, b2=BOOTS, t2=BOOTS)
def aes_salts(cls, key, first, history, a, c, b1, t1, b2, t2):
    """after any number of messages: the next salt is the last plus one modulo 2**64"""
    crypto.entropy(first)
    p = cls(key)
    for data, b, t in history:
        p.encrypt(data, b, t)
    x, s1 = p.encrypt(a, b1, t1)
    y, s2 = p.encrypt(c, b2, t2)
    n1, n2 = int.from_bytes(s1, "big"), int.from_bytes(s2, "big")
    check("successor", n2 == (n1 + 1) % 2 ** 64)
    cover("end")


@theorem(OPTS, cls=DES_CLASS, key=Bytes(16, 16), first=NEAR(4), history=List(Tup(DATA, BOOTS, BOOTS), maxlen=12),
         a=DATA, c=DATA, b1=BOOTS, t1=BOOTS, b2=BOOTS, t2=BOOTS)
def des_salts(cls, key, first, history, a, c, b1, t1, b2, t2):
    """after any number of messages: the counter in the next salt is the last plus one modulo 2**32"""
    crypto.entropy(first)
    p = cls(key)
    for data, b, t in history:
        p.encrypt(data, b, t)
    x, s1 = p.encrypt(a, b1, t1)
    y, s2 = p.encrypt(c, b2, t2)
    n1, n2 = int.from_bytes(s1[4:], "big"), int.from_bytes(s2[4:], "big")
    check("successor", n2 == (n1 + 1) % 2 ** 32)
    cover("end")
