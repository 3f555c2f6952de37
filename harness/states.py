"""Crafted states: legal states the seeding routines practically never reach."""

import random

from hypothesis import strategies as st
import numpy as np

from .common import M64, uint


def _arr(n, bits):
    """Array described compactly; expanded by `fill`."""
    return st.one_of(
        st.tuples(st.just("rand"), st.integers(0, 1 << 32)),
        st.tuples(st.just("sparse"), st.integers(0, 1 << 32)),
        st.tuples(st.just("ones"), st.integers(0, 1 << 32)),
    ) if n > 16 else st.lists(uint(bits), min_size=n, max_size=n)


def fill(spec, n, bits):
    if isinstance(spec, list):
        return list(spec)
    kind, seed = spec
    r = random.Random(seed)
    top = (1 << bits) - 1
    if kind == "rand":
        return [r.getrandbits(bits) for _ in range(n)]
    if kind == "sparse":
        out = [0] * n
        for _ in range(r.randint(1, 4)):
            out[r.randrange(n)] = r.getrandbits(bits) | 1 << r.randrange(bits)
        return out
    out = [top] * n
    for _ in range(r.randint(0, 4)):
        out[r.randrange(n)] = r.getrandbits(bits)
    return out


BUF = {"has_uint32": st.sampled_from([0, 1]), "uinteger": uint(32)}


def _s(bits):
    return ("s", bits)


# class name -> {path: ("s", bits) | ("a", n, bits) | strategy}
FIELDS = {
    "PCG64": {"state.state": _s(128), "state.inc": ("odd", 128), **BUF},
    "PCG64DXSM": {"state.state": _s(128), "state.inc": ("odd", 128), **BUF},
    "LCG128Mix": {"state.state": _s(128), "state.inc": ("odd", 128), **BUF},
    "PCG32": {"state.state": _s(64), "state.inc": ("odd", 64)},
    "Xoroshiro128": {"s": ("a", 2, 64), **BUF},
    "Xoshiro256": {"s": ("a", 4, 64), **BUF},
    "Xoshiro512": {"s": ("a", 8, 64), **BUF},
    "Xorshift1024": {"state.s": ("a", 16, 64), "state.p": st.integers(0, 15), **BUF},
    "LXM": {"state.x": ("a", 4, 64), "state.lcg_state": _s(64), "state.b": ("odd", 64), **BUF},
    "SFC64": {"state.a": _s(64), "state.b": _s(64), "state.c": _s(64), "state.w": _s(64),
              "state.k": ("odd", 64), **BUF},
    "JSF64": {f"state.{k}": _s(64) for k in "abcd"} | BUF,
    "JSF32": {f"state.{k}": _s(32) for k in "abcd"},
    "Romu": {f"state.{k}": _s(64) for k in "wxyz"} | BUF,
    "Tyche": {f"state.{k}": _s(32) for k in "abcd"},
    "EFIIX64": {"state.indirection_table": ("a", 16, 64), "state.iteration_table": ("a", 32, 64),
                "state.i": _s(64), "state.a": _s(64), "state.b": _s(64), "state.c": _s(64), **BUF},
    "MT19937": {"state.key": ("a", 624, 32), "state.pos": st.integers(0, 624)},
    "MT64": {"state.key": ("a", 312, 64), "state.pos": st.integers(0, 312), **BUF},
    "SFMT": {"state.state": ("a", 624, 32), "buffered_uint64": ("a", 312, 64),
             "buffer_loc": st.integers(0, 312), **BUF},
    "DSFMT": {"state.state": ("dsfmt", 384, 64), "buffer_loc": st.just(382)},
    "ChaCha": {"state.keysetup": ("a", 8, 32), "state.ctr": ("ctr16", 2, 64)},
    "Squares64": {"state.key": _s(64), "state.counter": _s(64), **BUF},
    "Squares32": {"state.key": _s(64), "state.counter": _s(64)},
    "HC128": {"state.p": ("a", 512, 32), "state.q": ("a", 512, 32),
              "state.hc_idx": st.integers(0, 63).map(lambda v: 16 * v),
              "state.buffer_idx": st.just(16)},
}
for n in (2, 4):
    for w in (32, 64):
        b = BUF if w == 64 else {}
        for kind, nk in (("Philox", n // 2), ("ThreeFry", n)):
            FIELDS[f"{kind}{n}x{w}"] = {
                "state.counter": ("a", n, w), "state.key": ("a", nk, w),
                "buffer_pos": st.just(n), **b}


def fields_of(cfg):
    return FIELDS.get(cfg.cname) or FIELDS.get(cfg.name.split("-")[0])


def strategy(cfg):
    """Literal dict of field descriptions, or None when not craftable."""
    f = fields_of(cfg)
    if f is None:
        return None
    out = {}
    for k, v in f.items():
        if isinstance(v, tuple):
            if v[0] == "s":
                v = uint(v[1])
            elif v[0] == "odd":
                v = uint(v[1]).map(lambda x: x | 1)
            else:
                v = _arr(v[1], v[2])
        out[k] = v
    return st.fixed_dictionaries(out)


def build(cfg, base, desc):
    """`base` (a state dict) with the described fields replaced."""
    f = fields_of(cfg)

    def clone(d):
        return {k: clone(v) if isinstance(v, dict) else v for k, v in d.items()}

    d = clone(base)
    for path, val in desc.items():
        spec = f[path]
        *head, last = path.split(".")
        tgt = d
        for h in head:
            tgt = tgt[h]
        if isinstance(spec, tuple) and spec[0] in ("a", "dsfmt", "ctr16"):
            _, n, bits = spec
            v = fill(val, n, bits)
            if spec[0] == "dsfmt":
                v[:382] = [x & 0x000FFFFFFFFFFFFF | 0x3FF0000000000000 for x in v[:382]]
            elif spec[0] == "ctr16":
                v[0] &= ~15
            elif not any(v) and cfg.cname not in ("Philox", "ThreeFry", "ChaCha"):
                v[0] = 1  # the all-zero state is excluded for linear generators
            v = np.array(v, dtype=np.uint64 if bits == 64 else np.uint32)
            val = v
        tgt[last] = val
    if "has_uint32" in d and not d["has_uint32"]:
        d["uinteger"] = 0
    return d


__all__ = ["strategy", "build", "M64"]
