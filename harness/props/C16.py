"""UserBitGenerator: derived outputs, overrides, state hooks, ctypes functions."""

import ctypes
import gc

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator, UserBitGenerator

from ..common import Drv, counts, canon, same, seed_int, uint
from ..core import Sub, check, fail
from ..gens import CFGS
from ._ops import apply, history
from .C10 import ask

BUDGET = 6

RULE = ("One case: a UserBitGenerator over Python callables that replay generated words (32 or 64 bits, "
        "any subset of next_64/next_32/next_double given explicitly, with or without state hooks), or "
        "over the ctypes functions of another generator, and requests through random_raw, ctypes, "
        "cffi, numpy Generator and ExtendedGenerator. Non-trivial: a request that derives its output, "
        "or any over ctypes.")


class Words:
    """A callable replaying words for ever, remembering what it was called with."""

    def __init__(self, words):
        self.words, self.pos, self.args = words, 0, set()

    def take(self):
        v = self.words[self.pos % len(self.words)]
        self.pos += 1
        return v

    def __call__(self, voidp):
        self.args.add(voidp)
        return self.take()


class Model:
    def __init__(self, raw, bits, n64, n32, dbl):
        self.r, self.bits, self.n64, self.n32, self.d = raw, bits, n64, n32, dbl

    def raw(self):
        return self.r.take()

    def u64(self):
        if self.n64:
            return self.n64.take()
        a = self.r.take()
        return a if self.bits == 64 else a << 32 | self.r.take()

    def u32(self):
        if self.n32:
            return self.n32.take()
        a = self.r.take()
        return a >> 32 if self.bits == 64 else a

    def dbl(self):
        if self.d:
            return self.d.take()
        a = self.r.take()
        if self.bits == 64:
            return (a >> 11) / 2.0**53
        return ((a >> 5 << 26) + (self.r.take() >> 6)) / 2.0**53


def request():
    return st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl", "f32", "bytes"]), counts,
                     st.sampled_from(["ctypes", "cffi", "gen", "ext", "py"]))


def expect(m, kind, n):
    if kind == "f32":
        return [float(np.float32(m.u32() >> 8) * np.float32(1 / 16777216.0)) for _ in range(n)]
    if kind == "bytes":
        w = [m.u32() for _ in range((n - 1) // 4 + 1)]
        return list(np.array(w, dtype="<u4").tobytes()[:n])
    return [getattr(m, kind)() for _ in range(n)]


def python_strategy(bits):
    def wlist(b):
        return st.lists(uint(b), min_size=1, max_size=9)

    dbl = st.lists(uint(53).map(lambda v: v / 2.0**53), min_size=1, max_size=5)
    step = st.one_of(request(), request(), request(),
                     st.tuples(st.sampled_from(["get", "set"]), st.integers(0, 9), st.just("")))
    return st.tuples(wlist(bits), st.one_of(st.none(), wlist(64)), st.one_of(st.none(), wlist(32)),
                     st.one_of(st.none(), dbl), st.booleans(),
                     st.one_of(st.none(), st.integers(0, 1 << 40)), st.lists(step, min_size=1, max_size=8))


def python_body(bits):
    def body(case, rec):
        raw, n64, n32, dbl, hooks, addr, todo = case
        real = [Words(raw)] + [w and Words(w) for w in (n64, n32, dbl)]
        mine = [Words(raw)] + [w and Words(w) for w in (n64, n32, dbl)]
        kw = {k: v for k, v in zip(("next_64", "next_32", "next_double"), real[1:]) if v}
        keep = None
        if addr is not None:
            keep = ctypes.c_void_p(addr)
            kw["state"] = keep
        stored = []
        if hooks:
            kw["state_getter"] = lambda: {"pos": real[0].pos}
            kw["state_setter"] = lambda v: (stored.append(v), setattr(real[0], "pos", v["pos"]))
        bg = UserBitGenerator(real[0], bits, **kw)
        m = Model(mine[0], bits, *mine[1:])
        gens = (np.random.Generator(bg), ExtendedGenerator(bg))
        name = f"UserBitGenerator(bits={bits}, {sorted(kw)})"
        check(ctypes.c_void_p.from_buffer(ctypes.c_size_t(bg.ctypes.state_address)).value
              == (addr or None), f"{name}: state address {bg.ctypes.state_address}, given {addr}")
        for kind, n, how in todo:
            if kind == "get":
                if hooks:
                    check(bg.state == {"pos": mine[0].pos}, f"{name}: state = {bg.state}")
                else:
                    refuses(lambda: bg.state, name)
                continue
            if kind == "set":
                if hooks:
                    v = {"pos": n}
                    bg.state = v
                    mine[0].pos = n
                    check(stored[-1] is v, f"{name}: state_setter was not given the value")
                else:
                    refuses(lambda: setattr(bg, "state", {"pos": n}), name)
                continue
            got = ask(bg, kind, n, how, gens)
            same([got], [expect(m, kind, n)], f"{name}: {kind} x{n} through {how}")
            if kind not in ("raw", "u32" if bits == 32 else "u64"):
                rec.hit(kind)
        for what, r, e in zip(("next_raw", "next_64", "next_32", "next_double"), real, mine):
            if r:
                check(r.pos == e.pos, f"{name}: {what} called {r.pos} times, expected {e.pos}")
                check(r.args <= {addr or None}, f"{name}: {what} called with {r.args}, state is {addr}")

    return body


def refuses(fn, name):
    try:
        v = fn()
    except NotImplementedError:
        return
    fail(f"{name}: state without hooks gave {v!r}")


def ctypes_body(cfg):
    def body(case, rec):
        seed, hist, todo, hooks = case
        src, twin = cfg.make(seed), cfg.make(seed)
        apply(src, hist)
        apply(twin, hist)
        c = src.ctypes
        kw = {}
        if hooks:
            kw = {"state_getter": lambda: src.state,
                  "state_setter": lambda v: setattr(src, "state", v)}
        bg = UserBitGenerator.from_ctypes(c.next_uint64, c.next_uint64, c.next_uint32, c.next_double,
                                          c.state, **kw)
        gens = (np.random.Generator(bg), ExtendedGenerator(bg))
        theirs = (np.random.Generator(twin), ExtendedGenerator(twin))
        for kind, n, how in todo:
            k = "u64" if kind == "raw" else kind
            got = ask(bg, kind, n, how, gens)
            want = ask(twin, k, n, "ctypes", theirs)
            same([got], [want], f"UserBitGenerator over {cfg}: {kind} x{n} through {how}")
        if hooks:
            check(canon(bg.state) == canon(twin.state), f"state through the hooks differs ({cfg})")
            bg.state = cfg.make(99).state
            same([Drv(bg).op("u64", 5)], [Drv(cfg.make(99)).op("u64", 5)], f"state_setter ({cfg})")
        else:
            refuses(lambda: bg.state, "from_ctypes")
        rec.hit(cfg.cname)

    return body


RES = (ctypes.c_uint64, ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double)


def four_body(case, rec):
    """Four different functions that only the bit generator keeps alive."""
    words, addr, hooks, todo = case
    mine = [Words(w) for w in words]
    real = [Words(w) for w in words]
    kw = {}
    if hooks:
        kw = {"state_getter": lambda: {"pos": [r.pos for r in real]},
              "state_setter": lambda v: [setattr(r, "pos", p) for r, p in zip(real, v["pos"])]}
    bg = UserBitGenerator.from_ctypes(
        *(ctypes.CFUNCTYPE(t, ctypes.c_void_p)(r) for t, r in zip(RES, real)),
        None if addr is None else ctypes.c_void_p(addr), **kw)
    gens = (np.random.Generator(bg), ExtendedGenerator(bg))
    m = Model(mine[0], 64, *mine[1:])
    gc.collect(0)
    for kind, n, how in todo:
        got = ask(bg, kind, n, how, gens)
        same([got], [expect(m, kind, n)], f"from_ctypes with four functions: {kind} x{n} through {how}")
        rec.hit(kind)
    for r, e in zip(real, mine):
        check(r.pos == e.pos, f"a function of {[x.pos for x in mine]} calls was called {r.pos} times")
        check(r.args <= {addr or None}, f"called with {r.args}, state is {addr}")
    if hooks:
        check(bg.state == {"pos": [e.pos for e in mine]}, f"state = {bg.state}")
        bg.state = {"pos": [3, 1, 2, 0]}
        for e, p in zip(mine, [3, 1, 2, 0]):
            e.pos = p
        same([ask(bg, "u64", 2, "py", gens)], [expect(m, "u64", 2)], "after a state")
    else:
        refuses(lambda: bg.state, "from_ctypes")
        refuses(lambda: setattr(bg, "state", {}), "from_ctypes")


def compiled():
    """numba functions over a state of four words, each moving one of them"""
    try:
        from numba import carray, cfunc, types
    except ImportError:
        return None

    @cfunc(types.uint64(types.CPointer(types.uint64)))
    def raw(st):
        s = carray(st, 4)
        s[0] = s[0] * types.uint64(6364136223846793005) + types.uint64(1)
        return s[0]

    @cfunc(types.uint64(types.CPointer(types.uint64)))
    def u64(st):
        s = carray(st, 4)
        s[1] = s[1] * types.uint64(6364136223846793005) + types.uint64(3)
        return s[1]

    @cfunc(types.uint32(types.CPointer(types.uint64)))
    def u32(st):
        s = carray(st, 4)
        s[2] = s[2] * types.uint64(6364136223846793005) + types.uint64(5)
        return types.uint32(s[2] >> types.uint64(32))

    @cfunc(types.double(types.CPointer(types.uint64)))
    def dbl(st):
        s = carray(st, 4)
        s[3] = s[3] * types.uint64(6364136223846793005) + types.uint64(7)
        return (s[3] >> types.uint64(11)) / 9007199254740992.0

    return raw, u64, u32, dbl


class Lcg:
    def __init__(self, x, inc, out):
        self.x, self.inc, self.out = x, inc, out

    def take(self):
        self.x = (self.x * 6364136223846793005 + self.inc) % 2**64
        return self.out(self.x)


def cfunc_body():
    funs = compiled()

    def body(case, rec):
        start, hooks, todo, wrong = case
        state = np.array(start, np.uint64)
        kw = {}
        if hooks:
            kw = {"state_getter": lambda: state.tolist(), "state_setter": lambda v: state.__setitem__(slice(None), v)}
        where = state.ctypes.data_as(ctypes.c_void_p)
        if wrong is not None:
            i, what = wrong
            given = list(funs)
            given[i] = {"none": None, "python": lambda p: 1, "ctypes": funs[i].ctypes, "int": 3,
                        "other": funs[(i + 1) % 4 if i else 2]}[what]
            try:
                UserBitGenerator.from_cfunc(*given, where, **kw)
            except TypeError:
                rec.hit("rejected")
                return
            fail(f"from_cfunc accepted {what} as function {i}")
        bg = UserBitGenerator.from_cfunc(*funs, where, **kw)
        mine = [Lcg(start[0], 1, int), Lcg(start[1], 3, int), Lcg(start[2], 5, lambda x: x >> 32),
                Lcg(start[3], 7, lambda x: (x >> 11) / 2.0**53)]
        m = Model(mine[0], 64, *mine[1:])
        gens = (np.random.Generator(bg), ExtendedGenerator(bg))
        for kind, n, how in todo:
            got = ask(bg, kind, n, how, gens)
            same([got], [expect(m, kind, n)], f"from_cfunc: {kind} x{n} through {how}")
            rec.hit("cfunc " + kind)
        check(state.tolist() == [e.x for e in mine], f"from_cfunc: the state is {state}")
        if hooks:
            check(bg.state == state.tolist(), "from_cfunc: state")
            bg.state = start
            check(state.tolist() == list(start), "from_cfunc: state was not set")
        else:
            refuses(lambda: bg.state, "from_cfunc")

    def strategy():
        wrong = st.one_of(st.none(), st.none(), st.none(), st.tuples(
            st.integers(0, 3), st.sampled_from(["none", "python", "ctypes", "int", "other"])))
        return st.tuples(st.lists(uint(64), min_size=4, max_size=4), st.booleans(),
                         st.lists(request(), min_size=1, max_size=8), wrong)

    return funs is not None and (strategy, body)


def four_strategy():
    def wlist(b):
        return st.lists(uint(b), min_size=1, max_size=9)

    dbl = st.lists(uint(53).map(lambda v: v / 2.0**53), min_size=1, max_size=5)
    return st.tuples(st.tuples(wlist(64), wlist(64), wlist(32), dbl), st.one_of(st.none(), st.integers(0, 1 << 40)),
                     st.booleans(), st.lists(request(), min_size=1, max_size=8))


def invalid():
    names = ["raw", "u64", "u32", "dbl", "none", "python", "int"]
    right = ["u64", "u64", "u32", "dbl"]
    strat = st.lists(st.sampled_from(names), min_size=4, max_size=4).filter(
        lambda v: [x.replace("raw", "u64") for x in v] != right)
    c = CFGS[0].make(1)

    def body(case, rec):
        t = {"raw": c.ctypes.next_uint64, "u64": c.ctypes.next_uint64, "u32": c.ctypes.next_uint32,
             "dbl": c.ctypes.next_double, "none": None, "python": lambda p: 1, "int": 5}
        try:
            UserBitGenerator.from_ctypes(*(t[v] for v in case), None)
        except TypeError:
            rec.hit()
            return
        fail(f"from_ctypes accepted {case}")

    return lambda: strat, body


def bad_bits():
    def body(case, rec):
        try:
            UserBitGenerator(Words([1]), case)
        except (TypeError, ValueError):
            rec.hit()
            return
        fail(f"UserBitGenerator(bits={case!r}) accepted")

    return lambda: st.one_of(st.integers(-100, 200), st.integers(-1 << 70, 1 << 70)).filter(
        lambda v: v not in (32, 64)), body


def subs(tier):
    out = [Sub(f"python{b}", lambda b=b: python_strategy(b), python_body(b), quick=1500, shards=3)
           for b in (32, 64)]
    for c in CFGS:
        out.append(Sub(f"ctypes/{c}", lambda c=c: st.tuples(
            seed_int(), history(c, 3), st.lists(request(), min_size=1, max_size=8), st.booleans()),
            ctypes_body(c), quick=30))
    out.append(Sub("four", four_strategy, four_body, quick=800, shards=2))
    cfunc = cfunc_body()
    if cfunc:
        out.append(Sub("cfunc", *cfunc, quick=300))
    return out + [Sub("invalid", *invalid(), quick=200), Sub("bits", *bad_bits(), quick=100)]


