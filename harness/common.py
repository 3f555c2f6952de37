"""Shared strategies, drivers and comparisons."""

import random

from hypothesis import strategies as st
import numpy as np

from .core import check, fail

M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


# ---------------------------------------------------------------- strategies
def uint(bits):
    """Boundary biased unsigned integer of a given width."""
    top = (1 << bits) - 1
    half = 1 << bits // 2
    edge = [0, 1, 2, top, top - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, half, half - 1]
    if bits >= 32:
        edge += [M32, M32 - 1, 1 << 32, 1 << 31]
    if bits >= 64:
        edge += [M64, 1 << 63, (1 << 63) + 1]
    if bits > 64:
        edge += [1 << 64, top - M64, M64 << (bits - 64), (1 << 64) + 1, top - 5, top - 17]
    edge = sorted({e for e in edge if 0 <= e <= top})
    return st.one_of(
        st.sampled_from(edge),
        st.integers(0, min(top, 40)),
        st.integers(0, min(top, 40)).map(lambda d: top - d),
        st.integers(0, top),
        st.integers(0, bits - 1).flatmap(
            lambda k: st.integers(-3, 3).map(lambda d: max(0, min(top, (1 << k) + d)))),
    )


def delta(bits):
    """Signed step sizes around every boundary of a 2**bits counter."""
    u = uint(bits)
    return st.one_of(u, u, u.map(lambda v: -v), st.integers(-40, 40),
                     u.map(lambda v: v + (1 << bits)), u.map(lambda v: v * 3),
                     st.integers(-30, 30).map(lambda v: v + (1 << bits)))


def seed_int():
    return st.one_of(uint(64), uint(128), uint(32), st.integers(0, 1 << 300))


def seed_list():
    return st.lists(uint(32), min_size=1, max_size=9)


counts = st.sampled_from([1, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 11, 15, 16, 17, 31, 33])
big_counts = st.sampled_from([1, 2, 3, 5, 16, 33, 64, 127, 311, 312, 313, 382, 624, 625, 700])

DRAW = ("raw", "u32", "u64", "dbl")


def draws(max_size=12, big=False, kinds=DRAW):
    """A list of drawing operations."""
    return st.lists(st.tuples(st.sampled_from(kinds), big_counts if big else counts),
                    min_size=1, max_size=max_size)


# ---------------------------------------------------------------- drivers
class Drv:
    """Draws from a real bit generator through its public interfaces."""

    def __init__(self, bg):
        self.bg = bg
        self.c = bg.ctypes

    def op(self, kind, n):
        c = self.c
        if kind == "raw":
            return [int(v) for v in self.bg.random_raw(n)]
        f = {"u32": c.next_uint32, "u64": c.next_uint64, "dbl": c.next_double}[kind]
        s = c.state
        return [f(s) for _ in range(n)]

    def run(self, ops):
        return [self.op(k, n) for k, n in ops]


class Mdl:
    def __init__(self, m):
        self.m = m

    def op(self, kind, n):
        f = getattr(self.m, kind)
        return [f() for _ in range(n)]

    def run(self, ops):
        return [self.op(k, n) for k, n in ops]


def outputs(bg, ops):
    return Drv(bg).run(ops)


# fixed probe: exercises the 32-bit buffer, raw and double outputs
PROBE = (("u32", 1), ("u32", 1), ("u32", 1), ("raw", 5), ("u32", 2), ("u64", 2), ("dbl", 2),
         ("raw", 40))
LONG = PROBE + (("raw", 700),)


def same(a, b, what):
    """Compare two lists of per-operation outputs."""
    if a != b:
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                j = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), None)
                fail(f"{what}: operation {i}, item {j}: {x[j] if j is not None else x} != "
                     f"{y[j] if j is not None else y}")
        fail(f"{what}: different lengths")


def probe_same(a, b, what, probe=PROBE):
    """Both generators produce the same future (consumes it)."""
    same(outputs(a, probe), outputs(b, probe), what)


def canon(x):
    """State dict -> nested plain Python values, comparable with ==."""
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, [canon(v) for v in x.ravel().tolist()])
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return x


def values(x):
    """Like canon, ignoring dtype (for states rebuilt from lists)."""
    if isinstance(x, dict):
        return {str(k): values(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return [values(v) for v in x.ravel().tolist()]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [values(v) for v in x]
    return x


def state_of(bg):
    return canon(bg.state)


def words(seed, n, bits):
    r = random.Random(repr(seed))
    return [r.getrandbits(bits) for _ in range(n)]


def own_lock(a, b, what):
    """Holding one generator's lock does not stop the other."""
    with a.lock:
        free = b.lock.acquire(False)
        if free:
            b.lock.release()
    if not free:
        fail(f"{what}: the two generators share a lock")


def raises(exc, fn, what):
    try:
        v = fn()
    except exc:
        return
    except Exception as e:
        fail(f"{what}: raised {e!r} instead of {exc}")
    fail(f"{what}: accepted, returned {v!r}")


__all__ = [k for k in dir() if not k.startswith("_")]
