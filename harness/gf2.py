"""Polynomials over GF(2) as Python integers; Berlekamp-Massey; x**(2**k) mod p."""


def berlekamp_massey(bits):
    """Connection polynomial -> characteristic polynomial (int, degree L)."""
    n = len(bits)
    c = b = 1
    L, m = 0, 1
    s = 0  # reversed history: bit i of s is bits[t - i]
    for t in range(n):
        s = (s << 1) | bits[t]
        d = ((c & s).bit_count()) & 1
        if d == 0:
            m += 1
        elif 2 * L <= t:
            old = c
            c ^= b << m
            L, b, m = t + 1 - L, old, 1
        else:
            c ^= b << m
            m += 1
        s &= (1 << (n // 2 + 64)) - 1
    # characteristic polynomial: x^L * c(1/x)
    p = 0
    for i in range(L + 1):
        if c >> i & 1:
            p |= 1 << (L - i)
    return p


SPREAD = [sum((v >> i & 1) << 2 * i for i in range(8)) for v in range(256)]


def square(p):
    out = bytearray()
    for byte in p.to_bytes((p.bit_length() + 7) // 8, "little"):
        w = SPREAD[byte]
        out += bytes((w & 255, w >> 8))
    return int.from_bytes(out, "little")


def mod(a, p):
    n = p.bit_length()
    while True:
        k = a.bit_length() - n
        if k < 0:
            return a
        a ^= p << k


def xpow2(k, p):
    """x**(2**k) mod p."""
    a = mod(2, p)
    for _ in range(k):
        a = mod(square(a), p)
    return a


def divmod2(a, b):
    q, n = 0, b.bit_length()
    while True:
        k = a.bit_length() - n
        if k < 0:
            return q, a
        a ^= b << k
        q |= 1 << k


def mul(a, b):
    out = 0
    while b:
        k = b.bit_length() - 1
        out ^= a << k
        b ^= 1 << k
    return out


def gcd(a, b):
    while b:
        a, b = b, mod(a, b)
    return a


def lcm(a, b):
    return mul(a, divmod2(b, gcd(a, b))[0])
