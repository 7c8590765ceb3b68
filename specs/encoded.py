"""Sample byte strings for CPython runs: encodings of the library's types, often slightly wrong."""
from pyvc.gens import Bytes

NUMBERS = (0, 1, 2, 3, 5, 18, 19, 127, 128, 255, 483, 484, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64)
INTEGERS = (0x02, 0x41, 0x42, 0x43, 0x46)
EXCEPTIONS = (0x80, 0x81, 0x82)


def frame(tag, body):
    n = len(body)
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x82, n >> 8, n & 255]) if n < 65536 else bytes([0x83]) + n.to_bytes(3, "big")) + body


def number(rng, tag=2):
    v = rng.choice(NUMBERS) * rng.choice((1, 1, 1, -1))
    return frame(tag, v.to_bytes((v + (v < 0)).bit_length() // 8 + 1, "big", signed=True))


def small(rng):
    return frame(2, bytes([rng.choice((0, 0, 0, 1, 2, 3, 18, 19, 255))]))


def string(rng, tag=4):
    return frame(tag, rng.randbytes(rng.choice((0, 1, 4, 4, 12, 65536 if rng.random() < 0.05 else 5))))


def oid(rng):
    return frame(6, bytes([rng.choice((43, 0, 119, 120, 255))]) + rng.randbytes(rng.choice((0, 1, 3, 6, 140 if rng.random() < 0.1 else 2))))


def value(rng):
    return rng.choice((number, lambda rng: number(rng, rng.choice(INTEGERS)), string, lambda rng: frame(0x40, rng.randbytes(rng.choice((4, 4, 4, 3, 5)))),
                       lambda rng: string(rng, 0x44), oid, lambda rng: frame(5, b""), lambda rng: frame(rng.choice(EXCEPTIONS), b"")))(rng)


def varbind(rng):
    return frame(0x30, oid(rng) + value(rng))


def bindings(rng):
    return frame(0x30, b"".join(varbind(rng) for _ in range(rng.choice((0, 0, 1, 2)))))


def pdu(rng):
    field = small if rng.random() < 0.7 else number
    return frame(0xa0 + rng.choice((0, 1, 2, 3, 5, 6, 7, 8, 4)), number(rng) + field(rng) + field(rng) + bindings(rng))


def version(rng):
    return frame(2, bytes([rng.choice((0, 1, 3, 3, 2))]))


def message(rng):
    return frame(0x30, version(rng) + string(rng) + pdu(rng))


def header(rng):
    return frame(0x30, number(rng) + number(rng) + frame(4, bytes([rng.randrange(8)] * rng.choice((1, 1, 1, 0, 2)))) + small(rng))


def scoped(rng):
    return frame(0x30, string(rng) + string(rng) + pdu(rng))


def security(rng):
    return frame(0x30, string(rng) + number(rng) + number(rng) + string(rng) + string(rng) + string(rng))


def v3message(rng):
    return frame(0x30, version(rng) + header(rng) + frame(4, security(rng)) + rng.choice((scoped, string))(rng))


class Encoded(Bytes):
    """any byte string; the samples are encodings made by the functions given"""

    def __init__(self, *makers):
        super().__init__()
        self.makers = makers

    def rand(self, rng, size):
        if rng.random() < 0.2:
            return super().rand(rng, size)
        v = rng.choice(self.makers)(rng)
        while v and rng.random() < 0.3:
            k = rng.randrange(len(v))
            v = rng.choice((v[:k], v[:k] + v[k + 1:], v[:k] + rng.randbytes(1) + v[k:], v[:k] + rng.randbytes(1) + v[k + 1:], v + rng.randbytes(1)))
        return v
