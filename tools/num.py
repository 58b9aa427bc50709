"""Exact float32 helpers."""
import math, struct


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def me(x, bits=24):
    """Exact [mantissa, exponent] of a float (rounded to `bits` bits)."""
    if x == 0:
        return [0, 0]
    m, e = math.frexp(x)
    n = int(round(m * (1 << bits)))
    e -= bits
    while n % 2 == 0:
        n //= 2
        e += 1
    return [n, e]


def txt(x):
    return "%.9g" % f32(x)


def nxt(x, k):
    """The float32 k representable steps away from x > 0."""
    u = struct.unpack("<i", struct.pack("<f", x))[0] + k
    return struct.unpack("<f", struct.pack("<i", u))[0]
