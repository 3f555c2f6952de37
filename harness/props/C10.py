"""One stream behind every interface."""

import ctypes

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from .. import states
from ..common import M32, M64, Mdl, big_counts, same, seed_int
from ..core import Sub, check
from ..gens import CFGS
from ._ops import apply, history

RULE = ("One case: a generator in a live or crafted state and a list of requests (raw, 32-bit, 64-bit "
        "and double draws, in runs) served through a different interface each - ctypes, cffi, "
        "random_raw, a numpy Generator or an ExtendedGenerator on top - compared with one reference "
        "stream. Non-trivial: at least two interfaces used.")
HOW = ("ctypes", "cffi", "gen", "ext", "py")


def request():
    return st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl", "f32", "bytes"]), big_counts,
                     st.sampled_from(HOW), st.booleans())


def ask(bg, kind, n, how, generators):
    """(list of values, model request)"""
    if kind == "f32":
        g = generators[0]
        return [float(v) for v in g.random(n, dtype=np.float32)]
    if kind == "bytes":
        return list(generators[0].bytes(n))
    if kind == "raw":
        if how == "py":
            return [int(bg.random_raw()) for _ in range(n)]
        return [int(v) for v in bg.random_raw(n)]
    if how in ("gen", "ext", "py"):
        g, e = generators
        if how == "ext" and kind in ("u32", "u64"):
            return [int(v) for v in e.uintegers(n, 32 if kind == "u32" else 64)]
        if how == "ext":
            return [float(v) for v in e.random(n)]
        if kind == "u32":
            return [int(v) for v in g.integers(0, M32, n, dtype=np.uint32, endpoint=True)]
        if kind == "u64":
            return [int(v) for v in g.integers(0, M64, n, dtype=np.uint64, endpoint=True)]
        return [float(v) for v in g.random(n)]
    c = bg.cffi if how == "cffi" else bg.ctypes
    f = {"u32": c.next_uint32, "u64": c.next_uint64, "dbl": c.next_double}[kind]
    return [f(c.state) for _ in range(n)]


def model(m, kind, n):
    if kind == "f32":
        return [float(np.float32(m.u32() >> 8) * np.float32(1 / 16777216.0)) for _ in range(n)]
    if kind == "bytes":
        words = [m.u32() for _ in range((n - 1) // 4 + 1)]
        return list(np.array(words, dtype="<u4").tobytes()[:n])
    return [getattr(m, kind)() for _ in range(n)]


def body_for(cfg):
    def body(case, rec):
        origin, hist, reqs = case
        if isinstance(origin, int):
            bg = cfg.make(origin)
            apply(bg, hist)
        else:
            bg = cfg.make(1)
            bg.state = states.build(cfg, bg.state, origin)
        m = cfg.model().load(bg.state)
        gens = (np.random.Generator(bg), ExtendedGenerator(bg))
        for kind, n, how, _ in reqs:
            got = ask(bg, kind, n, how, gens)
            same([got], [model(m, kind, n)], f"{cfg} {kind} x{n} through {how}")
            if kind in ("dbl", "f32"):
                check(all(0.0 <= v < 1.0 for v in got), f"{cfg}: {kind} outside [0, 1)")
        # addresses of both foreign interfaces agree
        check(bg.ctypes.state_address == bg.cffi.state_address, f"{cfg}: state addresses differ")
        check(bg.ctypes.bit_generator.value == int(bg.cffi.bit_generator_int
              if hasattr(bg.cffi, "bit_generator_int") else addr(bg.cffi.bit_generator)),
              f"{cfg}: bit generator addresses differ")
        if len({h for k, _, h, _ in reqs if k != "raw"}) >= 2:
            rec.hit("several interfaces")

    return body


def addr(p):
    import cffi
    return int(cffi.FFI().cast("uintptr_t", p))


def strategy(cfg):
    opts = [seed_int()]
    if states.strategy(cfg) is not None:
        opts.append(states.strategy(cfg))
    return st.tuples(st.one_of(*opts), history(cfg, 3), st.lists(request(), min_size=1, max_size=8))


def subs(tier):
    out = []
    for c in CFGS:
        n = 60 if c.cname in ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "AESCounter") else 100
        out.append(Sub(str(c), lambda c=c: strategy(c), body_for(c), quick=n))
    return out


__all__ = ["RULE", "subs", "ctypes", "Mdl"]
