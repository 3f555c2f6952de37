"""Documented seeding: generator configuration + SeedSequence words -> model."""

import numpy as np

from .common import M32, M64
from .models import ctr
from .models.ctr import join


class KeySampler:
    """Key construction of Squares from the words of a seed sequence."""

    def __init__(self, seq, n=10):
        self.seq, self.n = seq, n
        self.words = [int(v) for v in seq.generate_state(n, np.uint64)]
        self.i = 0
        self.refill()

    def refill(self):
        while self.i >= len(self.words):
            self.n *= 2
            self.words = [int(v) for v in self.seq.generate_state(self.n, np.uint64)]
        self.well, self.used = self.words[self.i], 0
        self.i += 1

    def bits(self, n):
        if self.used + n > 64:
            self.refill()
        out = self.well & (1 << n) - 1
        self.well >>= n
        self.used += n
        return out

    def below(self, top):
        if top == 1:
            return 0
        n = 1 if top == 2 else top.bit_length() if top < 8 else 4
        while True:
            v = self.bits(n)
            if v < top:
                return v

    def key(self):
        w = list(range(16))
        for i in range(15):
            j = i + self.below(16 - i)
            w[i], w[j] = w[j], w[i]
        if w[0] % 2 == 0:
            old = w[0]
            w[0] += 1
            for i in range(1, 8):
                if w[i] == w[0]:
                    w[i] = old
        out = join(w[:8], 4)
        last = w[7]
        for i in range(8, 16):
            while True:
                v = self.bits(4)
                if v and v != last:
                    break
            last = v
            out |= v << 4 * i
        return out


def valid_key(k):
    """The documented constraints on a Squares key; None or the broken one."""
    d = [k >> 4 * i & 15 for i in range(16)]
    if d[0] % 2 == 0:
        return "digit 0 is even"
    if 0 in d[8:]:
        return "a zero digit among the high 8"
    if len(set(d[:8])) != 8:
        return "repeated digit among the low 8"
    for i in range(8, 16):
        if d[i] == d[i - 1]:
            return f"digit {i} equals digit {i - 1}"
    return None


def model(cfg, seq, **kw):
    """Reference model seeded from a SeedSequence; kw: constructor options."""
    o = {**cfg.kwargs, **kw}
    n = cfg.cname
    m = cfg.model()

    def w64(k):
        return [int(v) for v in seq.generate_state(k, np.uint64)]

    def w32(k):
        return [int(v) for v in seq.generate_state(k, np.uint32)]

    if n in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        inc = o.get("inc")
        if o.get("numpy_seed"):
            inc = None
        w = w64(4 if inc is None else 2)
        seq_no = w[2] << 64 | w[3] if inc is None else inc
        if n == "LCG128Mix":
            m.config(o.get("multiplier", 47026247687942121848144207491837523525),
                     o.get("dxsm_multiplier", 15750249268501108917), o["post"], o["output"])
        return m.seed(w[0] << 64 | w[1], seq_no)
    if n == "PCG32":
        w = w64(2)
        return m.seed(w[0], w[1] if o.get("inc") is None else o["inc"])
    if n in ("Xoroshiro128", "Xoshiro256", "Xoshiro512"):
        return m.seed(w64(cfg.words[0]))
    if n == "Xorshift1024":
        m.s, m.p = w64(16), 0
        return m
    if n == "LXM":
        w = w64(5)
        m.x, m.l, m.b = w[:4], w[4], o.get("b", 3037000493) & M64 | 1
        return m
    if n == "SFC64":
        w_, k_ = o.get("w", 1), o.get("k", 1)
        words = w64(3 + (w_ is None) + (k_ is None))
        rest = words[3:]
        w = w_ if w_ is not None else rest.pop(0)
        k = k_ if k_ is not None else rest.pop(0) | 1
        return m.seed(words[:3], w, k)
    if n == "JSF":
        size = o.get("size", 64)
        nw = o.get("seed_size", 1)
        d = {64: (7, 13, 37), 32: (27, 17, 0)}[size]
        p, q, r = (o[x] if o.get(x) is not None else d[i] for i, x in enumerate("pqr"))
        return m.seed(w64(nw) if size == 64 else w32(nw), size, p, q, r)
    if n == "Romu":
        return m.seed(w64(4))
    if n == "Tyche":
        w = w32(3)
        return m.seed(w[0] | w[1] << 32, w[2] if o.get("idx") is None else o["idx"])
    if n == "EFIIX64":
        return m.seed(w64(4))
    if n == "MT19937":
        if o.get("numpy_seed"):
            m.key, m.pos = w32(624), 623
            m.key[0] = 0x80000000
            return m
        return m.seed_array(w32(624))
    if n == "MT64":
        return m.seed_array(w64(312))
    if n == "SFMT":
        return m.seed_array(w32(624))
    if n == "DSFMT":
        return m.seed_array(w32(764))
    counter = o.get("counter") or 0
    if n == "Squares":
        return m.keyed(KeySampler(seq).key(), counter)
    if n == "Philox":
        w = join(w64(cfg.words[0]), 64)
        if (cfg.kwargs["number"], cfg.kwargs["width"]) == (2, 32):
            w &= M32
        return m.keyed(w, counter)
    w = join(w64(cfg.words[0]), 64)
    if n == "HC128":
        return m.keyed(w)
    if n in ("SPECK128", "ChaCha"):
        return m.keyed(w, counter, o.get("rounds", 34 if n == "SPECK128" else 20))
    return m.keyed(w, counter)


__all__ = ["model", "KeySampler", "valid_key", "ctr"]
