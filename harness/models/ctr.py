"""Counter based generators and stream ciphers."""

from .base import M32, M64, M128, Model32, Model64, rotl, rotr


def join(words, w):
    out = 0
    for i, v in enumerate(words):
        out |= int(v) << (w * i)
    return out


def split(v, n, w):
    m = (1 << w) - 1
    return [v >> (w * i) & m for i in range(n)]


# ----------------------------------------------------------------- AES-128
def _sbox():
    p = q = 1
    box = [0] * 256
    while True:
        p = (p ^ p << 1 ^ (0x1B if p & 0x80 else 0)) & 0xFF
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ rotl(q, 1, 8) ^ rotl(q, 2, 8) ^ rotl(q, 3, 8) ^ rotl(q, 4, 8)
        box[p] = x ^ 0x63
        if p == 1:
            break
    box[0] = 0x63
    return box


SBOX = _sbox()


def _xt(b):
    return (b << 1 ^ (0x1B if b & 0x80 else 0)) & 0xFF


XT = [_xt(i) for i in range(256)]


def aes_expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [SBOX[t[1]] ^ rc, SBOX[t[2]], SBOX[t[3]], SBOX[t[0]]]
            rc = XT[rc]
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]


def aes_block(rk, block):
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, 11):
        s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < 10:
            o = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t = a ^ b ^ d ^ e
                o += [a ^ t ^ XT[a ^ b], b ^ t ^ XT[b ^ d], d ^ t ^ XT[d ^ e], e ^ t ^ XT[e ^ a]]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


class Blocked(Model64):
    """Position `p` counts 64-bit outputs; `per` outputs per block."""

    per = 2
    PMASK = None
    _cb = None
    _cw = None

    def next(self):
        b, i = divmod(self.p, self.per)
        if b != self._cb:
            self._cb, self._cw = b, self.block(b)
        self.p = (self.p + 1) & self.PMASK
        return self._cw[i]

    def advance(self, n):
        self.p = (self.p + n) & self.PMASK
        self.has = self.uint = 0


class AES(Blocked):
    PMASK = (1 << 129) - 1

    def keyed(self, key, counter=0):
        self.rk = aes_expand(key.to_bytes(16, "little"))
        self.p = 2 * counter
        self._cb = None
        self.has = self.uint = 0
        return self

    def load(self, d):
        s = d["s"]
        key = join(s["seed"][:2], 64)
        self.keyed(key)
        self.p = (2 * join(s["counter"][:2], 64) - 8 + int(s["offset"]) // 8) & self.PMASK
        self.buf_from(d)
        return self

    def block(self, b):
        o = aes_block(self.rk, (b & M128).to_bytes(16, "little"))
        return [int.from_bytes(o[:8], "little"), int.from_bytes(o[8:], "little")]


class SPECK(Blocked):
    PMASK = (1 << 129) - 1

    def keyed(self, key, counter=0, rounds=34):
        a, b, c, d = split(key, 4, 64)
        rk = []
        for i in range(0, 33, 3):
            rk.append(a)
            b, a = self.er(b, a, i)
            rk.append(a)
            c, a = self.er(c, a, i + 1)
            rk.append(a)
            d, a = self.er(d, a, i + 2)
        rk.append(a)
        self.rk = rk[:rounds]
        self.p = 2 * counter
        self._cb = None
        self.has = self.uint = 0
        return self

    @staticmethod
    def er(x, y, k):
        x = (rotr(x, 8) + y & M64) ^ k
        return x, rotl(y, 3) ^ x

    def load(self, d):
        s = d["state"]
        self.rk = [int(v) for v in s["round_key"][::2]][:int(s["rounds"])]
        self._cb = None
        self.p = (2 * join(s["ctr"][:2], 64) - 12 + int(s["offset"]) // 8) & self.PMASK
        self.buf_from(d)
        return self

    def block(self, b):
        y, x = b & M64, b >> 64 & M64
        for k in self.rk:
            x, y = self.er(x, y, k)
        return [y, x]


def chacha_block(key, ctr, rounds):
    init = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574, *key, *ctr]
    x = list(init)

    def qr(a, b, c, d):
        x[a] = x[a] + x[b] & M32
        x[d] = rotl(x[d] ^ x[a], 16, 32)
        x[c] = x[c] + x[d] & M32
        x[b] = rotl(x[b] ^ x[c], 12, 32)
        x[a] = x[a] + x[b] & M32
        x[d] = rotl(x[d] ^ x[a], 8, 32)
        x[c] = x[c] + x[d] & M32
        x[b] = rotl(x[b] ^ x[c], 7, 32)

    for _ in range(0, rounds, 2):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    return [a + b & M32 for a, b in zip(init, x)]


class ChaCha(Model32):
    """`p` counts 32-bit words; the 64-bit outputs take the low word first."""

    def keyed(self, key, counter=0, rounds=20):
        self.key, self.p, self.rounds = split(key, 8, 32), counter, rounds
        self._cb = None
        return self

    def load(self, d):
        s = d["state"]
        self.key = [int(v) for v in s["keysetup"]]
        self.p = join(s["ctr"], 64)
        self.rounds = int(s["rounds"])
        self._cb = None
        return self

    def next(self):
        b, i = divmod(self.p, 16)
        if b != self._cb:
            self._cb = b
            self._cw = chacha_block(self.key, split(b, 4, 32), self.rounds)
        self.p = (self.p + 1) & M128
        return self._cw[i]

    def u64(self):
        a = self.next()
        return a | self.next() << 32

    raw = u64

    def dbl(self):
        return (self.u64() >> 11) * 2.0 ** -53


# ----------------------------------------------------------------- Random123
PHILOX_M = {(2, 64): [0xD2B74407B1CE6E93], (4, 64): [0xD2E7470EE14C6C93, 0xCA5A826395121157],
            (2, 32): [0xD256D193], (4, 32): [0xD2511F53, 0xCD9E8D57]}
PHILOX_W = {64: [0x9E3779B97F4A7C15, 0xBB67AE8584CAA73B], 32: [0x9E3779B9, 0xBB67AE85]}


def philox_block(n, w, ctr, key, rounds=10):
    m = (1 << w) - 1
    c, k = list(ctr), list(key)
    mul = PHILOX_M[n, w]
    for r in range(rounds):
        if r:
            k = [a + b & m for a, b in zip(k, PHILOX_W[w])]
        p0 = mul[0] * c[0]
        if n == 2:
            c = [p0 >> w ^ k[0] ^ c[1], p0 & m]
        else:
            p1 = mul[1] * c[2]
            c = [p1 >> w ^ c[1] ^ k[0], p1 & m, p0 >> w ^ c[3] ^ k[1], p0 & m]
    return c


TF_R = {
    (2, 64): [16, 42, 12, 31, 16, 32, 24, 21],
    (2, 32): [13, 15, 26, 6, 17, 29, 16, 24],
    (4, 64): [(14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32)],
    (4, 32): [(10, 26), (11, 21), (13, 27), (23, 5), (6, 20), (17, 11), (25, 10), (18, 20)],
}
TF_C = {64: 0x1BD11BDAA9FC1A22, 32: 0x1BD11BDA}


def threefry_block(n, w, ctr, key, rounds=20):
    m = (1 << w) - 1
    ks = list(key)
    t = TF_C[w]
    for v in key:
        t ^= v
    ks.append(t)
    x = [a + b & m for a, b in zip(ctr, key)]
    rot = TF_R[n, w]
    for r in range(rounds):
        k = rot[r % 8]
        if n == 2:
            x[0] = x[0] + x[1] & m
            x[1] = rotl(x[1], k, w) ^ x[0]
        else:
            a, b = (1, 3) if r % 2 == 0 else (3, 1)
            x[0] = x[0] + x[a] & m
            x[a] = rotl(x[a], k[0], w) ^ x[0]
            x[2] = x[2] + x[b] & m
            x[b] = rotl(x[b], k[1], w) ^ x[2]
        if r % 4 == 3:
            j = r // 4 + 1
            x = [x[i] + ks[(i + j) % (n + 1)] & m for i in range(n)]
            x[n - 1] = x[n - 1] + j & m
    return x


class R123:
    """The counter is incremented before each block of n words."""

    def __init__(self, kind, n, w):
        self.kind, self.n, self.w = kind, n, w
        self.fn = philox_block if kind == "philox" else threefry_block

    def keyed(self, key, counter=0):
        nk = self.n // 2 if self.kind == "philox" else self.n
        self.key = split(key, nk, self.w)
        self.ctr, self.pos = counter, self.n
        self.cache = None
        self.has = self.uint = 0
        return self

    def load(self, d):
        self.key = [int(v) for v in d["state"]["key"]]
        self.ctr = join(d["state"]["counter"], self.w)
        self.cache = [int(v) for v in d["buffer"]][:self.n]
        self.pos = min(int(d["buffer_pos"]), self.n)
        self.has, self.uint = int(d["has_uint32"]), int(d["uinteger"])
        return self

    def block(self):
        return self.fn(self.n, self.w, split(self.ctr, self.n, self.w), self.key)

    def next(self):
        if self.pos >= self.n:
            self.ctr = self.ctr + 1 & (1 << self.n * self.w) - 1
            self.cache, self.pos = self.block(), 0
        self.pos += 1
        return self.cache[self.pos - 1]

    def advance_counter(self, k):
        self.ctr = self.ctr + k & (1 << self.n * self.w) - 1
        self.pos = self.n
        self.has = self.uint = 0

    def advance_words(self, k):
        """k words forward (or back), exactly as if they had been drawn."""
        per = self.n
        q = self.ctr * per + self.pos  # absolute position; pos == n means: next block
        q = q + k
        self.ctr, self.pos = divmod(q, per)
        if self.pos == 0:  # same place, written as the exhausted previous block
            self.ctr, self.pos = self.ctr - 1, per
        self.ctr &= (1 << self.n * self.w) - 1
        self.cache = self.block()
        self.has = self.uint = 0


class R123x64(R123, Model64):
    pass


class R123x32(R123, Model32):
    pass


def r123(kind, n, w):
    return (R123x64 if w == 64 else R123x32)(kind, n, w)


# ----------------------------------------------------------------- HC-128
class HC128(Model32):
    def keyed(self, key):
        """256-bit integer: the low half is the HC-128 key, the high half the IV."""
        words = split(key, 8, 32)
        k, iv = words[:4], words[4:]
        w = k + k + iv + iv
        for i in range(16, 1280):
            a, b = w[i - 2], w[i - 15]
            f2 = rotr(a, 17, 32) ^ rotr(a, 19, 32) ^ a >> 10
            f1 = rotr(b, 7, 32) ^ rotr(b, 18, 32) ^ b >> 3
            w.append(f2 + w[i - 7] + f1 + w[i - 16] + i & M32)
        self.p, self.q = w[256:768], w[768:1280]
        self.i = 0
        for t in (self.p, self.q):
            for j in range(512):
                t[j] = self.step()
        self.pend = []
        return self

    def load(self, d):
        s = d["state"]
        self.p, self.q = [int(v) for v in s["p"]], [int(v) for v in s["q"]]
        self.i = int(s["hc_idx"])
        pos = int(s["buffer_idx"]) % 16
        self.pend = [int(v) for v in s["buffer"]][pos:] if pos else []
        return self

    def step(self):
        i = self.i % 1024
        j = i % 512
        if i < 512:
            x, y, r1, r2, r3 = self.p, self.q, 10, 23, 8
        else:
            x, y, r1, r2, r3 = self.q, self.p, 22, 9, 24
        if i < 512:
            g = rotr(x[j - 3], 10, 32) ^ rotr(x[(j - 511) % 512], 23, 32)
            g = g + rotr(x[j - 10], 8, 32)
        else:
            g = rotl(x[j - 3], 10, 32) ^ rotl(x[(j - 511) % 512], 23, 32)
            g = g + rotl(x[j - 10], 8, 32)
        x[j] = x[j] + g & M32
        z = x[j - 12]
        h = y[z & 0xFF] + y[256 + (z >> 16 & 0xFF)] & M32
        self.i = (self.i + 1) % 1024
        return h ^ x[j]

    def next(self):
        if self.pend:
            return self.pend.pop(0)
        return self.step()

    def u64(self):
        a = self.next()
        return a | self.next() << 32

    raw = u64

    def dbl(self):
        return (self.u64() >> 11) * 2.0 ** -53


# ----------------------------------------------------------------- Squares
def squares(ctr, key, wide):
    y = x = ctr * key & M64
    z = y + key & M64
    x = rotl(x * x + y & M64, 32)
    x = rotl(x * x + z & M64, 32)
    x = rotl(x * x + y & M64, 32)
    if not wide:
        return (x * x + z & M64) >> 32
    t = x = x * x + z & M64
    x = rotl(x, 32)
    return t ^ (x * x + y & M64) >> 32


class _Squares:
    def keyed(self, key, counter=0):
        self.key, self.ctr = key, counter
        self.has = self.uint = 0
        return self

    def load(self, d):
        self.key, self.ctr = int(d["state"]["key"]), int(d["state"]["counter"])
        self.has, self.uint = int(d["has_uint32"]), int(d["uinteger"])
        return self

    def next(self):
        self.ctr = self.ctr + 1 & M64
        return squares(self.ctr - 1 & M64, self.key, self.wide)

    def advance(self, n):
        self.ctr = self.ctr + n & M64
        self.has = self.uint = 0


class Squares64(_Squares, Model64):
    wide = True


class Squares32(_Squares, Model32):
    wide = False

    def u64(self):
        a = self.next()
        return a | self.next() << 32

    raw = u64
