"""Reference jumps: GF(2) polynomial arithmetic and counter arithmetic.

The polynomials of the Mersenne-twister family were obtained with
Berlekamp-Massey from output sequences (gf2.py), not taken from the library."""

import functools
import json
from pathlib import Path

import numpy as np

from .. import gf2
from .base import M64, M128
from .recur import xo256_step

PHI128 = 0x9E3779B97F4A7C15F39CC0605CEDC834
PHI64 = 0x9E3779B97F4A7C15

_POLYS = None


def _table():
    global _POLYS
    if _POLYS is None:
        _POLYS = json.loads((Path(__file__).parent / "jumps.json").read_text())
    return _POLYS


@functools.cache
def mt_poly(name, k):
    """x**(k * 2**128) modulo the characteristic polynomial, as set bits."""
    t = _table()[name]
    p = int(t["char"], 16)
    out = 1
    for e, size in (("144", 65536), ("140", 4096), ("136", 256), ("132", 16), ("128", 1)):
        while k >= size:
            f = int(t[e], 16)
            out = gf2.mod(gf2.mul(out, f), p) if out != 1 else f
            k -= size
    bits = np.frombuffer(out.to_bytes(2600, "little"), dtype=np.uint8)
    return np.nonzero(np.unpackbits(bits, bitorder="little"))[0]


# ------------------------------------------------- xor-shift family
def _step_xoroshiro(pp):
    def step(s):
        from .base import rotl
        s0, s1 = s
        s1 ^= s0
        if pp:
            return [rotl(s0, 49) ^ s1 ^ (s1 << 21 & M64), rotl(s1, 28)]
        return [rotl(s0, 24) ^ s1 ^ (s1 << 16 & M64), rotl(s1, 37)]
    return step


def _step_xo512(s):
    from .recur import Xoshiro512
    m = Xoshiro512()
    m.s = list(s)
    m.next()
    return m.s


def _step_xs1024(s):
    s0, s1 = s[0], s[1]
    s1 ^= s1 << 31 & M64
    v = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30
    # rolled view: position 0 is always the current word
    return [v] + s[2:] + [s0]


KINDS = {"xoroshiro": (_step_xoroshiro(False), 2, 64),
         "xoroshiro++": (_step_xoroshiro(True), 2, 64),
         "xo256": (xo256_step, 4, 128),
         "xo512": (_step_xo512, 8, 256),
         "xs1024": (_step_xs1024, 16, 512)}


@functools.cache
def _char(kind):
    step, n, e = KINDS[kind]
    s = [(0x9E3779B97F4A7C15 * (i + 1) ^ i << 40) & M64 for i in range(n)]
    bits = []
    for _ in range(2 * 64 * n + 64):
        bits.append(s[0] & 1)
        s = step(s)
    p = gf2.berlekamp_massey(bits)
    assert p.bit_length() - 1 == 64 * n, (kind, p.bit_length())
    return p, gf2.xpow2(e, p)


@functools.cache
def _poly(kind, k):
    p, one = _char(kind)
    out, sq = 1, one
    while k:
        if k & 1:
            out = gf2.mod(gf2.mul(out, sq), p)
        sq = gf2.mod(gf2.square(sq), p)
        k >>= 1
    return out


def linear(kind, s, k):
    step, n, _ = KINDS[kind]
    q = _poly(kind, k)
    acc = [0] * n
    while q:
        if q & 1:
            acc = [a ^ b for a, b in zip(acc, s)]
        s = step(list(s))
        q >>= 1
    return acc


# ------------------------------------------------- Mersenne twisters
def mt_window(key, pos, k):
    """Words of the state, oldest first, k * 2**128 transitions later.

    The low 31 bits of the first word do not take part in the recurrence."""
    key = [int(v) for v in key]
    if pos >= 624:
        pos = 0
    y = key[pos:] + key[:pos]
    idx = mt_poly("MT19937", k)
    need = int(idx[-1]) + 624
    w = y
    for i in range(need - 624 + 1):
        z = w[i] & 0x80000000 | w[i + 1] & 0x7FFFFFFF
        w.append(w[i + 397] ^ z >> 1 ^ (0x9908B0DF if z & 1 else 0))
    w = np.array(w, dtype=np.uint32)
    return [int(np.bitwise_xor.reduce(w[idx + t])) for t in range(624)]


def block_outputs(name, outs, k, n):
    """First 2n 64-bit outputs k * 2**128 blocks of 128 bits after `outs` starts."""
    x = np.asarray(outs, dtype=np.uint64).reshape(-1, 2)
    idx = mt_poly(name, k)
    assert len(x) >= idx[-1] + n
    return [int(v) for t in range(n) for v in np.bitwise_xor.reduce(x[idx + t], axis=0)]


# ------------------------------------------------- dispatch
def jump(cfg, m, k):
    """Moves model `m` by k documented jumps; the pending half word is dropped."""
    n = cfg.cname
    if n in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        m.jump(PHI128 * k & M128)
    elif n == "PCG32":
        m.jump((PHI64 + 1) * k & M64)
    elif n in ("AESCounter", "SPECK128"):
        m.advance(k << 64)
    elif n in ("Philox", "ThreeFry"):
        m.advance_counter(k << cfg.counter // 2)
    elif n == "Squares":
        m.advance(PHI64 * k & M64)
    elif n == "Xoroshiro128":
        m.s = linear("xoroshiro++" if m.pp else "xoroshiro", m.s, k)
    elif n == "Xoshiro256":
        m.s = linear("xo256", m.s, k)
    elif n == "LXM":
        m.x = linear("xo256", m.x, k)
    elif n == "Xoshiro512":
        m.s = linear("xo512", m.s, k)
    elif n == "Xorshift1024":
        r = linear("xs1024", m.s[m.p:] + m.s[:m.p], k)
        m.s = r[16 - m.p:] + r[:16 - m.p] if m.p else r
    else:
        raise KeyError(n)
    if hasattr(m, "has"):
        m.has = m.uint = 0
    return m
