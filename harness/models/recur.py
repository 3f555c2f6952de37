"""Recurrence based generators."""

import struct

from .base import M32, M64, M128, Model32, Model64, dbl64, rotl, rotr

PCG_MULT = 47026247687942121848144207491837523525
PCG_CHEAP = 0xDA942042E4DD58B5
PHI64 = 0x9E3779B97F4A7C15
PHI128 = 0x9E3779B97F4A7C15F39CC0605CEDC834


def murmur(z):
    z = ((z ^ z >> 30) * 0xBF58476D1CE4E5B9) & M64
    z = ((z ^ z >> 27) * 0x94D049BB133111EB) & M64
    return z ^ z >> 31


def dxsm(s, mult):
    hi, lo = s >> 64, s & M64 | 1
    hi ^= hi >> 32
    hi = hi * mult & M64
    hi ^= hi >> 48
    return hi * lo & M64


def xsl_rr(s):
    hi, lo = s >> 64, s & M64
    return rotr(hi ^ lo, hi >> 58)


def lcg_pow(mult, inc, n, bits):
    """(A, B) of s -> A s + B for n steps of s -> mult s + inc, mod 2**bits."""
    mask = (1 << bits) - 1
    n &= mask
    ra, rb = 1, 0
    a, b = mult, inc
    while n:
        if n & 1:
            ra, rb = ra * a & mask, (rb * a + b) & mask
        a, b = a * a & mask, (a * b + b) & mask
        n >>= 1
    return ra, rb


class PCG64(Model64):
    def __init__(self, variant):
        self.variant = variant
        self.mult = PCG_CHEAP if variant == "dxsm" else PCG_MULT

    def load(self, d):
        self.s = int(d["state"]["state"])
        self.inc = int(d["state"]["inc"])
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"state": self.s, "inc": self.inc}, "has_uint32": self.has,
                "uinteger": self.uint}

    def seed(self, initstate, initseq):
        self.inc = (initseq << 1 | 1) & M128
        self.s = 0
        self.step()
        self.s = (self.s + initstate) & M128
        self.step()
        self.has = self.uint = 0
        return self

    def step(self):
        self.s = (self.s * self.mult + self.inc) & M128

    def next(self):
        if self.variant == "dxsm":
            out = dxsm(self.s, PCG_CHEAP)
            self.step()
            return out
        self.step()
        return dxsm(self.s, PCG_CHEAP) if self.variant == "dxsm-128" else xsl_rr(self.s)

    def jump(self, n):
        a, b = lcg_pow(self.mult, self.inc, n, 128)
        self.s = (a * self.s + b) & M128
        self.has = self.uint = 0


class LCG128Mix(Model64):
    def load(self, d):
        st = d["state"]
        self.s, self.inc, self.mult = int(st["state"]), int(st["inc"]), int(st["multiplier"])
        self.dm, self.post, self.out = int(st["dxsm_multiplier"]), st["post"], st["output_func"]
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"state": self.s, "inc": self.inc, "multiplier": self.mult,
                          "dxsm_multiplier": self.dm, "post": bool(self.post),
                          "output_func": self.out},
                "has_uint32": self.has, "uinteger": self.uint}

    def config(self, mult, dm, post, out):
        self.mult, self.dm, self.post, self.out = mult, dm, post, out
        return self

    def seed(self, initstate, initseq):
        self.inc = (initseq << 1 | 1) & M128
        self.s = 0
        self.step()
        self.s = (self.s + initstate) & M128
        self.step()
        self.has = self.uint = 0
        return self

    def step(self):
        self.s = (self.s * self.mult + self.inc) & M128

    def next(self):
        if self.post:
            self.step()
            s = self.s
        else:
            s = self.s
            self.step()
        o = self.out
        if callable(o):
            return o(s >> 64, s & M64)
        if o == "xsl-rr":
            return xsl_rr(s)
        if o == "dxsm":
            return dxsm(s, self.dm)
        if o == "murmur3":
            return murmur(s >> 64)
        if o == "upper":
            return s >> 64
        return s & M64

    def jump(self, n):
        a, b = lcg_pow(self.mult, self.inc, n, 128)
        self.s = (a * self.s + b) & M128
        self.has = self.uint = 0


class PCG32(Model32):
    MULT = 6364136223846793005

    def load(self, d):
        self.s, self.inc = int(d["state"]["state"]), int(d["state"]["inc"])
        return self

    def dump(self):
        return {"state": {"state": self.s, "inc": self.inc}}

    def seed(self, initstate, initseq):
        self.inc = (initseq << 1 | 1) & M64
        self.s = 0
        self.step()
        self.s = (self.s + initstate) & M64
        self.step()
        return self

    def step(self):
        self.s = (self.s * self.MULT + self.inc) & M64

    def next(self):
        s = self.s
        self.step()
        return rotr(((s >> 18 ^ s) >> 27) & M32, s >> 59, 32)

    def jump(self, n):
        a, b = lcg_pow(self.MULT, self.inc, n, 64)
        self.s = (a * self.s + b) & M64


class XBase(Model64):
    """xor-shift family with the state in d["s"]."""

    def load(self, d):
        self.s = [int(v) for v in d["s"]]
        self.buf_from(d)
        return self

    def dump(self):
        return {"s": list(self.s), "has_uint32": self.has, "uinteger": self.uint}

    def seed(self, words):
        self.s = list(words)
        self.has = self.uint = 0
        return self


class Xoroshiro128(XBase):
    def __init__(self, pp):
        self.pp = pp

    def next(self):
        s0, s1 = self.s
        if self.pp:
            out = (rotl((s0 + s1) & M64, 17) + s0) & M64
            s1 ^= s0
            self.s = [rotl(s0, 49) ^ s1 ^ (s1 << 21 & M64), rotl(s1, 28)]
        else:
            out = (s0 + s1) & M64
            s1 ^= s0
            self.s = [rotl(s0, 24) ^ s1 ^ (s1 << 16 & M64), rotl(s1, 37)]
        return out


def xo256_step(s):
    s0, s1, s2, s3 = s
    t = s1 << 17 & M64
    s2 ^= s0
    s3 ^= s1
    s1 ^= s2
    s0 ^= s3
    return [s0, s1, s2 ^ t, rotl(s3, 45)]


class Xoshiro256(XBase):
    def next(self):
        out = rotl(self.s[1] * 5 & M64, 7) * 9 & M64
        self.s = xo256_step(self.s)
        return out


class Xoshiro512(XBase):
    def next(self):
        s = self.s
        out = rotl(s[1] * 5 & M64, 7) * 9 & M64
        t = s[1] << 11 & M64
        s[2] ^= s[0]
        s[5] ^= s[1]
        s[1] ^= s[2]
        s[7] ^= s[3]
        s[3] ^= s[4]
        s[4] ^= s[5]
        s[0] ^= s[6]
        s[6] ^= s[7]
        s[6] ^= t
        s[7] = rotl(s[7], 21)
        return out


class Xorshift1024(Model64):
    def load(self, d):
        self.s = [int(v) for v in d["state"]["s"]]
        self.p = int(d["state"]["p"])
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"s": list(self.s), "p": self.p}, "has_uint32": self.has,
                "uinteger": self.uint}

    def next(self):
        s0 = self.s[self.p]
        self.p = (self.p + 1) & 15
        s1 = self.s[self.p]
        s1 ^= s1 << 31 & M64
        v = s1 ^ s0 ^ s1 >> 11 ^ s0 >> 30
        self.s[self.p] = v
        return v * 0x9E3779B97F4A7C13 & M64


class LXM(Model64):
    def load(self, d):
        st = d["state"]
        self.x = [int(v) for v in st["x"]]
        self.l, self.b = int(st["lcg_state"]), int(st["b"])
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"x": list(self.x), "lcg_state": self.l, "b": self.b},
                "has_uint32": self.has, "uinteger": self.uint}

    def next(self):
        out = murmur((self.x[0] + self.l) & M64)
        self.l = (2862933555777941757 * self.l + self.b) & M64
        self.x = xo256_step(self.x)
        return out


class SFC64(Model64):
    def load(self, d):
        st = d["state"]
        self.v = [int(st[k]) for k in "abcwk"]
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": dict(zip("abcwk", self.v)), "has_uint32": self.has,
                "uinteger": self.uint}

    def seed(self, words, w, k):
        self.v = [*words, w, k]
        self.has = self.uint = 0
        for _ in range(12):
            self.next()
        return self

    def next(self):
        a, b, c, w, k = self.v
        out = (a + b + w) & M64
        self.v = [b ^ b >> 11, (c + (c << 3)) & M64, (rotl(c, 24) + out) & M64,
                  (w + k) & M64, k]
        return out


class _JSF:
    def load(self, d):
        st = d["state"]
        self.v = [int(st[k]) for k in "abcd"]
        self.pqr = [int(st[k]) for k in "pqr"]
        self.size = int(d["size"])
        self.has, self.uint = int(d["has_uint32"]), int(d["uinteger"])
        return self

    def dump(self):
        return {"state": {**dict(zip("abcd", self.v)), **dict(zip("pqr", self.pqr))},
                "size": self.size, "has_uint32": self.has, "uinteger": self.uint}

    def seed(self, words, size, p, q, r):
        self.size, self.pqr = size, [p, q, r]
        b = c = d = words[0]
        if len(words) > 1:
            c = words[1]
        if len(words) > 2:
            d = words[2]
        self.v = [0xF1EA5EED, b, c, d]
        self.has = self.uint = 0
        for _ in range(20):
            self.next()
        return self

    def next(self):
        w = self.size
        m = (1 << w) - 1
        a, b, c, d = self.v
        p, q, r = self.pqr
        e = (a - rotl(b, p, w)) & m
        a = b ^ rotl(c, q, w)
        b = (c + rotl(d, r, w)) & m
        c = (d + e) & m
        d = (e + a) & m
        self.v = [a, b, c, d]
        return d


class JSF64(_JSF, Model64):
    pass


class JSF32(_JSF, Model32):
    def dbl(self):
        return dbl64(self.u64())


class Romu(Model64):
    def __init__(self, variant):
        self.variant = variant

    def load(self, d):
        st = d["state"]
        self.v = [int(st[k]) for k in "wxyz"]
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": dict(zip("wxyz", self.v), variant=self.variant),
                "has_uint32": self.has, "uinteger": self.uint}

    def seed(self, words):
        self.v = list(words)
        self.has = self.uint = 0
        for _ in range(10):
            self.next()
        return self

    def next(self):
        w, x, y, z = self.v
        c = 15241094284759029579
        if self.variant == "quad":
            self.v = [c * z & M64, (z + rotl(w, 52)) & M64, (y - x) & M64,
                      rotl((y + w) & M64, 19)]
        else:
            self.v = [w, c * z & M64, rotl((y - x) & M64, 12), rotl((z - y) & M64, 44)]
        return x


class Tyche(Model32):
    """The raw output of Tyche is a 64-bit word made of two 32-bit ones."""

    def __init__(self, original):
        self.original = original

    def load(self, d):
        self.v = [int(d["state"][k]) for k in "abcd"]
        return self

    def dump(self):
        return {"state": dict(zip("abcd", self.v), original=self.original)}

    def seed(self, seed, idx):
        self.v = [seed >> 32, seed & M32, 2654435769, 1367130551 ^ idx]
        for _ in range(20):
            self.next()
        return self

    def raw(self):
        return self.u64()

    def next(self):
        a, b, c, d = self.v
        if self.original:
            a = (a + b) & M32
            d = rotl(d ^ a, 16, 32)
            c = (c + d) & M32
            b = rotl(b ^ c, 12, 32)
            a = (a + b) & M32
            d = rotl(d ^ a, 8, 32)
            c = (c + d) & M32
            b = rotl(b ^ c, 7, 32)
            self.v = [a, b, c, d]
            return b
        b = rotl(b, 7, 32) ^ c
        c = (c - d) & M32
        d = rotl(d, 8, 32) ^ a
        a = (a - b) & M32
        b = rotl(b, 12, 32) ^ c
        c = (c - d) & M32
        d = rotl(d, 16, 32) ^ a
        a = (a - b) & M32
        self.v = [a, b, c, d]
        return a


class Arbee:
    def __init__(self, s1, s2, s3, s4):
        self.v = [s1, s2, s3, s4, 1]
        for _ in range(12):
            self.next()

    def next(self):
        a, b, c, d, i = self.v
        e = (a + rotl(b, 45)) & M64
        a = b ^ rotl(c, 13)
        b = (c + rotl(d, 37)) & M64
        c = (e + d + i) & M64
        d = (e + a) & M64
        self.v = [a, b, c, d, (i + 1) & M64]
        return d


class EFIIX64(Model64):
    def load(self, d):
        st = d["state"]
        self.ind = [int(v) for v in st["indirection_table"]]
        self.it = [int(v) for v in st["iteration_table"]]
        self.i, self.a, self.b, self.c = (int(st[k]) for k in "iabc")
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"indirection_table": list(self.ind), "iteration_table": list(self.it),
                          "i": self.i, "a": self.a, "b": self.b, "c": self.c},
                "has_uint32": self.has, "uinteger": self.uint}

    def seed(self, words):
        s1, s2, s3, s4 = words
        r = Arbee(s1, s2, s3, s4)
        self.ind = [r.next() for _ in range(16)]
        self.i = r.next()
        self.it = [0] * 32
        for w in range(32):
            self.it[(w + self.i) % 32] = r.next()
        self.a, self.b, self.c = r.next(), r.next(), r.next()
        for _ in range(64):
            self.next()
        r.next()
        s1 = (s1 + r.next()) & M64
        s2 = (s2 + r.next()) & M64
        s3 = (s3 + r.next()) & M64
        r = Arbee(s1 ^ self.a, s2 ^ self.b, s3 ^ self.c, ~s4 & M64)
        for w in range(16):
            self.ind[w] ^= r.next()
        for _ in range(48):
            self.next()
        self.has = self.uint = 0
        return self

    def next(self):
        ii, cc = self.i % 32, self.c % 16
        iterated, indirect = self.it[ii], self.ind[cc]
        self.ind[cc] = (iterated + self.a) & M64
        self.it[ii] = indirect
        old = self.a ^ self.b
        self.a = (self.b + self.i) & M64
        self.i = (self.i + 1) & M64
        self.b = (self.c + indirect) & M64
        self.c = (old + rotl(self.c, 25)) & M64
        return self.b ^ iterated


class MT19937(Model32):
    def load(self, d):
        self.key = [int(v) for v in d["state"]["key"]]
        self.pos = int(d["state"]["pos"])
        return self

    def dump(self):
        return {"state": {"key": list(self.key), "pos": self.pos}}

    def seed_array(self, words):
        mt = [19650218]
        for i in range(1, 624):
            mt.append((1812433253 * (mt[-1] ^ mt[-1] >> 30) + i) & M32)
        i, j = 1, 0
        for _ in range(max(624, len(words))):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ mt[i - 1] >> 30) * 1664525 & M32))
                     + words[j] + j) & M32
            i += 1
            j += 1
            if i >= 624:
                mt[0] = mt[623]
                i = 1
            if j >= len(words):
                j = 0
        for _ in range(623):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ mt[i - 1] >> 30) * 1566083941 & M32)) - i) & M32
            i += 1
            if i >= 624:
                mt[0] = mt[623]
                i = 1
        mt[0] = 0x80000000
        self.key, self.pos = mt, 624
        return self

    def next(self):
        if self.pos == 624:
            k = self.key
            for i in range(624):
                y = k[i] & 0x80000000 | k[(i + 1) % 624] & 0x7FFFFFFF
                k[i] = k[(i + 397) % 624] ^ y >> 1 ^ (0x9908B0DF if y & 1 else 0)
            self.pos = 0
        y = self.key[self.pos]
        self.pos += 1
        y ^= y >> 11
        y ^= y << 7 & 0x9D2C5680
        y ^= y << 15 & 0xEFC60000
        return y ^ y >> 18


class MT64(Model64):
    def load(self, d):
        self.key = [int(v) for v in d["state"]["key"]]
        self.pos = int(d["state"]["pos"])
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"key": list(self.key), "pos": self.pos}, "has_uint32": self.has,
                "uinteger": self.uint}

    def seed_array(self, words):
        n = 312
        mt = [19650218]
        for i in range(1, n):
            mt.append((6364136223846793005 * (mt[-1] ^ mt[-1] >> 62) + i) & M64)
        i, j = 1, 0
        for _ in range(max(n, len(words))):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ mt[i - 1] >> 62) * 3935559000370003845 & M64))
                     + words[j] + j) & M64
            i += 1
            j += 1
            if i >= n:
                mt[0] = mt[n - 1]
                i = 1
            if j >= len(words):
                j = 0
        for _ in range(n - 1):
            mt[i] = ((mt[i] ^ ((mt[i - 1] ^ mt[i - 1] >> 62) * 2862933555777941757 & M64))
                     - i) & M64
            i += 1
            if i >= n:
                mt[0] = mt[n - 1]
                i = 1
        mt[0] = 1 << 63
        self.key, self.pos = mt, n
        self.has = self.uint = 0
        return self

    def next(self):
        if self.pos >= 312:
            k = self.key
            for i in range(312):
                y = k[i] & 0xFFFFFFFF80000000 | k[(i + 1) % 312] & 0x7FFFFFFF
                k[i] = k[(i + 156) % 312] ^ y >> 1 ^ (0xB5026F5AA96619E9 if y & 1 else 0)
            self.pos = 0
        x = self.key[self.pos]
        self.pos += 1
        x ^= x >> 29 & 0x5555555555555555
        x ^= x << 17 & 0x71D67FFFEDA60000
        x ^= x << 37 & 0xFFF7EEE000000000
        return x ^ x >> 43


def _lagged_init(words, size, extra):
    """The shared SFMT/dSFMT init_by_array on `size` 32-bit words."""
    lag, f1, f2 = 11, 1664525, 1566083941
    mid = (size - lag) // 2
    p = [0x8B8B8B8B] * size
    n = len(words)
    count = max(n + 1, size)

    def fn1(x):
        return (x ^ x >> 27) * f1 & M32

    def fn2(x):
        return (x ^ x >> 27) * f2 & M32

    r = fn1(p[0] ^ p[mid] ^ p[size - 1])
    p[mid] = (p[mid] + r) & M32
    r = (r + n) & M32
    p[mid + lag] = (p[mid + lag] + r) & M32
    p[0] = r
    i = 1
    for j in range(count - 1):
        r = fn1(p[i] ^ p[(i + mid) % size] ^ p[(i + size - 1) % size])
        p[(i + mid) % size] = (p[(i + mid) % size] + r) & M32
        r = (r + (words[j] if j < n else 0) + i) & M32
        p[(i + mid + lag) % size] = (p[(i + mid + lag) % size] + r) & M32
        p[i] = r
        i = (i + 1) % size
    for _ in range(size):
        r = fn2((p[i] + p[(i + mid) % size] + p[(i + size - 1) % size]) & M32)
        p[(i + mid) % size] ^= r
        r = (r - i) & M32
        p[(i + mid + lag) % size] ^= r
        p[i] = r
        i = (i + 1) % size
    return p


class SFMT(Model64):
    N, POS1, SL1, SL2, SR1, SR2 = 156, 122, 18, 1, 11, 1
    MSK = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)
    PARITY = (0x00000001, 0x00000000, 0x00000000, 0x13C9E684)

    def load(self, d):
        w = [int(v) for v in d["state"]["state"]]
        self.st = [[w[4 * i + j] for j in range(4)] for i in range(self.N)]
        self.buf = [int(v) for v in d["buffered_uint64"]]
        self.loc = int(d["buffer_loc"])
        self.buf_from(d)
        return self

    def dump(self):
        return {"state": {"state": [v for q in self.st for v in q], "idx": 624},
                "buffer_loc": self.loc, "buffered_uint64": list(self.buf),
                "has_uint32": self.has, "uinteger": self.uint}

    def seed_array(self, words):
        p = _lagged_init(words, 624, None)
        inner = 0
        for i in range(4):
            inner ^= p[i] & self.PARITY[i]
        if bin(inner).count("1") % 2 == 0:
            p[0] ^= 1  # the lowest bit of the parity vector
        self.st = [p[4 * i:4 * i + 4] for i in range(self.N)]
        self.buf, self.loc = [0] * 312, 312
        self.has = self.uint = 0
        return self

    def regen(self):
        st, n = self.st, self.N
        for i in range(n):
            a, b, c, d = st[i], st[(i + self.POS1) % n], st[(i - 2) % n], st[(i - 1) % n]
            xa = a[0] | a[1] << 32 | a[2] << 64 | a[3] << 96
            xc = c[0] | c[1] << 32 | c[2] << 64 | c[3] << 96
            x = (xa << 8 * self.SL2) & M128
            y = xc >> 8 * self.SR2
            st[i] = [a[j] ^ (x >> 32 * j & M32) ^ (b[j] >> self.SR1 & self.MSK[j])
                     ^ (y >> 32 * j & M32) ^ (d[j] << self.SL1 & M32) for j in range(4)]

    def next(self):
        if self.loc >= 312:
            self.regen()
            self.buf = [v for q in self.st for v in (q[0] | q[1] << 32, q[2] | q[3] << 32)]
            self.loc = 0
        self.loc += 1
        return self.buf[self.loc - 1]


def f64_bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def bits_f64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class DSFMT:
    """dSFMT-19937; buffered doubles in [1, 2)."""

    N, POS1, SL1, SR = 191, 117, 19, 12
    MSK = (0x000FFAFFFFFFFB3F, 0x000FFDFFFC90FFFD)

    def load(self, d):
        w = [int(v) for v in d["state"]["state"]]
        self.st = [[w[2 * i], w[2 * i + 1]] for i in range(self.N)]
        self.lung = w[2 * self.N:]
        self.buf = [float(v) for v in d["buffered_uniforms"]]
        self.loc = int(d["buffer_loc"])
        return self

    def dump(self):
        return {"state": {"state": [v for q in self.st for v in q] + list(self.lung),
                          "idx": 382},
                "buffer_loc": self.loc, "buffered_uniforms": list(self.buf)}

    def seed_array(self, words):
        p = _lagged_init(words, 768, None)
        w = [p[2 * i] | p[2 * i + 1] << 32 for i in range(384)]
        w[:382] = [v & 0x000FFFFFFFFFFFFF | 0x3FF0000000000000 for v in w[:382]]
        t0, t1 = w[382] ^ 0x90014964B32F4329, w[383] ^ 0x3B8D12AC548A7C7A
        inner = t0 & 0x3D84E1AC0DC82880 ^ t1 & 1
        if bin(inner).count("1") % 2 == 0:
            w[383] ^= 1
        self.st = [[w[2 * i], w[2 * i + 1]] for i in range(self.N)]
        self.lung = w[382:]
        self.buf, self.loc = [0.0] * 382, 382
        return self

    def regen(self):
        n = self.N
        l0, l1 = self.lung
        for i in range(n):
            t0, t1 = self.st[i]
            b0, b1 = self.st[(i + self.POS1) % n]
            l0, l1 = ((t0 << self.SL1 & M64) ^ rotl(l1, 32) ^ b0,
                      (t1 << self.SL1 & M64) ^ rotl(l0, 32) ^ b1)
            self.st[i] = [l0 >> self.SR ^ l0 & self.MSK[0] ^ t0,
                          l1 >> self.SR ^ l1 & self.MSK[1] ^ t1]
        self.lung = [l0, l1]

    def next(self):
        """IEEE bits of a double in [1, 2)."""
        if self.loc >= 382:
            self.regen()
            self.buf = [bits_f64(v) for q in self.st for v in q]
            self.loc = 0
        self.loc += 1
        return f64_bits(self.buf[self.loc - 1])

    def raw(self):
        return self.next()

    def u32(self):
        return self.next() >> 16 & M32

    def u64(self):
        a = self.next() >> 16 & M32
        return a << 32 | self.next() >> 16 & M32

    def dbl(self):
        return bits_f64(self.next()) - 1.0
