"""Histories: operations any user can apply to a bit generator."""

from hypothesis import strategies as st
import numpy as np

from ..common import big_counts, counts, delta


def history(cfg, max_size=6, big=True):
    """Draws mixed with whatever repositioning the class offers."""
    c = big_counts if big else counts
    kinds = [st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), c)] * 4
    kinds.append(st.tuples(st.just("u32"), st.just(1)))
    if cfg.adv and cfg.cname != "Squares":
        kinds.append(st.tuples(st.just("advance"), delta(cfg.adv)))
    elif cfg.adv:
        kinds.append(st.tuples(st.just("advance"), st.integers(0, 1 << 64 - 1)))
    if hasattr(cfg.cls, "jump") and cfg.cname != "PCG64DXSM":
        kinds.append(st.tuples(st.just("jump"), st.integers(1, 2)))
    return st.lists(st.one_of(*kinds), max_size=max_size)


def apply(bg, ops):
    c = bg.ctypes
    s = c.state
    f = {"u32": c.next_uint32, "u64": c.next_uint64, "dbl": c.next_double}
    for kind, n in ops:
        if kind == "raw":
            bg.random_raw(n)
        elif kind == "advance":
            bg.advance(n)
        elif kind == "jump":
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                bg.jump(n)
        else:
            for _ in range(n):
                f[kind](s)


def spell(value, how, nbits):
    """A key or counter spelled as int, uint64 array, uint64 list or padded array."""
    if how == "int" or value is None:
        return value
    n = -(-nbits // 64)
    w = [value >> 64 * i & ((1 << 64) - 1) for i in range(n)]
    if how == "short":  # drop high zero words
        while len(w) > 1 and not w[-1]:
            w.pop()
        how = "array"
    if how == "array":
        return np.array(w, dtype=np.uint64)
    if how == "list":
        return w
    if how == "tuple":
        return tuple(np.uint64(v) for v in w)
    if how == "strided":
        return np.array([x for v in w for x in (v, 0x5A5A)], dtype=np.uint64)[::2]
    if how == "npint":
        return np.uint64(value) if value < 1 << 64 else value
    raise ValueError(how)


SPELLINGS = ("int", "array", "list", "tuple", "short", "strided", "npint")
