"""Registry: every bit generator in every configuration, with its model."""

import randomgen as R

from .models import ctr, recur
from .models.base import M32, M64


def native(cfg, bg, n):
    """n native outputs as Python ints."""
    return [int(v) for v in bg.random_raw(n)]


class Cfg:
    def __init__(self, name, cls, kwargs, model, raw_bits=64, has32=True, adv=0, jump=None,
                 key=0, counter=0, words=None, numpy=False, key_kind="seed", adv_kw=None,
                 seed_mask=None):
        self.name = name
        self.cls = cls
        self.cname = cls.__name__
        self.kwargs = kwargs
        self.model = model  # callable -> unloaded model
        self.raw_bits = raw_bits
        self.has32 = has32
        self.adv = adv  # bits of the modulus of advance(), 0: no advance
        self.jump = jump  # None: no jumped(); else log2 or callable
        self.key = key  # bits of `key`
        self.counter = counter  # bits of `counter`
        self.words = words  # (n, bits) consumed from the seed sequence
        self.numpy = numpy  # numpy_seed supported
        self.adv_kw = adv_kw or {}

    def make(self, seed=0, **kw):
        return self.cls(seed, **{**self.kwargs, **kw})

    def __repr__(self):
        return self.name


def _lcg(**kw):
    return {k: v for k, v in kw.items()}


LCG_FN = {"xsl-rr": "xsl-rr", "dxsm": "dxsm", "murmur3": "murmur3", "upper": "upper",
          "lower": "lower"}

CFGS = []


def add(*a, **k):
    CFGS.append(Cfg(*a, **k))


for v in ("xsl-rr", "dxsm", "dxsm-128"):
    add("PCG64-" + v, R.PCG64, {"variant": v}, lambda v=v: recur.PCG64(v), adv=128,
        words=(4, 64), numpy=v == "xsl-rr")
add("PCG64DXSM", R.PCG64DXSM, {}, lambda: recur.PCG64("dxsm"), adv=128, words=(4, 64))
for o in ("xsl-rr", "dxsm", "murmur3", "upper", "lower"):
    for post in (True, False):
        add(f"LCG128Mix-{o}-{'post' if post else 'pre'}", R.LCG128Mix,
            {"output": o, "post": post}, recur.LCG128Mix, adv=128, words=(4, 64))
add("LCG128Mix-custom", R.LCG128Mix,
    {"output": "dxsm", "post": False, "multiplier": 0xDA942042E4DD58B5 | 1 << 127,
     "dxsm_multiplier": 0xD605BBB58C8ABBFD}, recur.LCG128Mix, adv=128, words=(4, 64))
add("PCG32", R.PCG32, {}, recur.PCG32, raw_bits=32, has32=False, adv=64, words=(2, 64))
add("Xoroshiro128", R.Xoroshiro128, {}, lambda: recur.Xoroshiro128(False), words=(2, 64))
add("Xoroshiro128-pp", R.Xoroshiro128, {"plusplus": True}, lambda: recur.Xoroshiro128(True),
    words=(2, 64))
add("Xoshiro256", R.Xoshiro256, {}, recur.Xoshiro256, words=(4, 64))
add("Xoshiro512", R.Xoshiro512, {}, recur.Xoshiro512, words=(8, 64))
add("Xorshift1024", R.Xorshift1024, {}, recur.Xorshift1024, words=(16, 64))
add("LXM", R.LXM, {}, recur.LXM, words=(5, 64))
add("SFC64", R.SFC64, {}, recur.SFC64, words=(3, 64), numpy=True)
add("SFC64-wk", R.SFC64, {"w": 0x1234567, "k": 0x9E3779B97F4A7C15}, recur.SFC64, words=(3, 64))
add("SFC64-none", R.SFC64, {"w": None, "k": None}, recur.SFC64, words=(5, 64))
add("JSF64", R.JSF, {}, recur.JSF64, words=(1, 64))
add("JSF64-3", R.JSF, {"seed_size": 3, "p": 39, "q": 11, "r": 0}, recur.JSF64, words=(3, 64))
add("JSF32", R.JSF, {"size": 32}, recur.JSF32, raw_bits=32, has32=False, words=(1, 32))
add("JSF32-2", R.JSF, {"size": 32, "seed_size": 2, "p": 16, "q": 8, "r": 0}, recur.JSF32,
    raw_bits=32, has32=False, words=(2, 32))
add("Romu-quad", R.Romu, {"variant": "quad"}, lambda: recur.Romu("quad"), words=(4, 64))
add("Romu-trio", R.Romu, {"variant": "trio"}, lambda: recur.Romu("trio"), words=(4, 64))
add("Tyche", R.Tyche, {"original": True}, lambda: recur.Tyche(True), has32=False,
    words=(3, 32))
add("Tyche-openrand", R.Tyche, {"original": False}, lambda: recur.Tyche(False), has32=False,
    words=(3, 32))
add("EFIIX64", R.EFIIX64, {}, recur.EFIIX64, words=(4, 64))
add("MT19937", R.MT19937, {}, recur.MT19937, raw_bits=32, has32=False, words=(624, 32),
    numpy=True)
add("MT64", R.MT64, {}, recur.MT64, words=(312, 64))
add("SFMT", R.SFMT, {}, recur.SFMT, words=(624, 32))
add("DSFMT", R.DSFMT, {}, recur.DSFMT, has32=False, words=(764, 32))
add("AESCounter", R.AESCounter, {}, ctr.AES, adv=129, key=128, counter=128, words=(2, 64))
add("SPECK128", R.SPECK128, {}, ctr.SPECK, adv=129, key=256, counter=128, words=(4, 64))
add("SPECK128-r8", R.SPECK128, {"rounds": 8}, ctr.SPECK, adv=129, key=256, counter=128,
    words=(4, 64))
for r in (20, 8, 2):
    add(f"ChaCha{r}", R.ChaCha, {"rounds": r}, ctr.ChaCha, has32=False, key=256, counter=128,
        words=(4, 64))
for n in (2, 4):
    for w in (32, 64):
        nb = n * w + n // 2
        add(f"Philox{n}x{w}", R.Philox, {"number": n, "width": w},
            lambda n=n, w=w: ctr.r123("philox", n, w), raw_bits=w, has32=w == 64, adv=nb,
            key=n * w // 2, counter=n * w, words=(max(n * w // 128, 1), 64),
            numpy=(n, w) == (4, 64))
for n in (2, 4):
    for w in (32, 64):
        nb = n * w + n // 2
        add(f"ThreeFry{n}x{w}", R.ThreeFry, {"number": n, "width": w},
            lambda n=n, w=w: ctr.r123("threefry", n, w), raw_bits=w, has32=w == 64, adv=nb,
            key=n * w, counter=n * w, words=(n * w // 64, 64))
add("HC128", R.HC128, {}, ctr.HC128, has32=False, key=256, words=(4, 64))
add("Squares64", R.Squares, {"variant": 64}, ctr.Squares64, adv=64, key=64, counter=64)
add("Squares32", R.Squares, {"variant": 32}, ctr.Squares32, has32=False, adv=64, key=64,
    counter=64)

BY_NAME = {c.name: c for c in CFGS}
