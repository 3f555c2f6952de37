"""Histories on LCG128Mix generators whose output function is the user's own."""

import copy
import ctypes

from hypothesis import strategies as st

import randomgen as R

from ..common import Drv, Mdl, check, counts, delta, same, uint
from ..models import recur
from ..core import Sub

M64 = (1 << 64) - 1
U64 = ctypes.c_ulonglong
PROTO = ctypes.CFUNCTYPE(U64, U64, U64)
NAMES = ("xsl-rr", "dxsm", "murmur3", "upper", "lower")
MULT = 47026247687942121848144207491837523525
DXSM = 15750249268501108917


def user(kind, a, b):
    """A mixing function (Python view)."""
    r = a % 64
    return {
        "rot": lambda hi, lo: (hi >> r | hi << 64 - r) & M64 ^ lo,
        "mul": lambda hi, lo: ((hi ^ b) * (a | 1) + lo) & M64,
        "high": lambda hi, lo: hi ^ a,
        "low": lambda hi, lo: (lo + b) & M64,
        "const": lambda hi, lo: a,
        "labs": lambda hi, lo: -hi & M64 if hi >> 63 else hi,
    }[kind]


def as_function(kind, fn, listed):
    """The same function as ctypes hands it to the generator."""
    if kind == "labs":
        f = ctypes.CDLL(None)["labs"]
        f.restype = U64
        f.argtypes = [U64, U64] if listed else (U64, U64)
        return f
    return PROTO(fn)


mixers = st.one_of(
    st.tuples(st.sampled_from(["rot", "mul", "high", "low", "const", "labs"]), uint(64), uint(64)),
    st.tuples(st.sampled_from(["rot", "mul", "labs"]), uint(64), uint(64)),
    st.tuples(st.sampled_from(NAMES), st.just(0), st.just(0)))
who = st.integers(0, 5)
OPS = {
    "new": st.tuples(st.just("new"), mixers, uint(64), st.sampled_from([MULT, MULT, 0x1DA942042E4DD58B5]),
                     st.booleans(), st.booleans()),
    "draw": st.tuples(st.just("draw"), who, st.sampled_from(["raw", "raw", "u32", "u32", "u64", "dbl"]), counts),
    "state": st.tuples(st.just("state"), who, who),
    "keep": st.tuples(st.just("keep"), who),
    "restore": st.tuples(st.just("restore"), who, who),
    "seed": st.tuples(st.just("seed"), who, uint(64)),
    "drop": st.tuples(st.just("drop"), who),
    "advance": st.tuples(st.just("advance"), who, delta(128)),
    "jumped": st.tuples(st.just("jumped"), who, st.integers(0, 5)),
    "copy": st.tuples(st.just("copy"), who),
}
JUMP = 0x9e3779b97f4a7c15f39cc0605cedc834


class One:
    """A generator, what it should do, and the function's Python view."""

    def __init__(self, bg, m):
        self.bg, self.m, self.drv = bg, Mdl(m), Drv(bg)


def clone(m):
    n = recur.LCG128Mix()
    n.__dict__.update(m.__dict__)
    return n


def out_of(m, given):
    """The state names the output function in use."""
    if isinstance(m.out, str):
        check(given == m.out, f"the state says output_func={given!r} for a generator using {m.out}")
    else:
        check(callable(given), f"the state says output_func={given!r} for a function of the user's")
        for hi, lo in ((0, 0), (1 << 63, 5), (M64, M64 - 1)):
            got = given(hi, lo)
            check(got == m.out(hi, lo), f"the state's output_func gives {got} for {hi}, {lo}")


def body(case, rec):
    pool, kept, reuse = [], [], []
    custom = set()
    for op in case:
        k = op[0]
        if k == "new":
            (name, a, b), seed, mult, post, listed = op[1:]
            if name in NAMES:
                f, out = name, name
            else:
                out = user(name, a, b)
                f = as_function(name, out, listed)
            bg = R.LCG128Mix(seed, multiplier=mult, post=post, output=f)
            m = recur.LCG128Mix().load(R.LCG128Mix(seed, multiplier=mult, post=post).state)
            m.out = out
            pool.append(One(bg, m))
            del f
            continue
        if not pool:
            continue
        x = pool[op[1] % len(pool)]
        if k == "draw":
            same([x.drv.op(*op[2:])], [x.m.op(*op[2:])], f"{op}")
            custom.add(callable(x.m.m.out))
        elif k == "state":
            y = pool[op[2] % len(pool)]
            s = y.bg.state
            out_of(y.m.m, s["state"]["output_func"])
            x.bg.state = s
            x.m = Mdl(clone(y.m.m))
        elif k == "keep":
            kept.append((x.bg.state, clone(x.m.m)))
        elif k == "restore" and kept:
            s, m = kept[op[2] % len(kept)]
            x.bg.state = s
            x.m = Mdl(clone(m))
        elif k == "seed":
            x.bg.seed(op[2])
            fresh = recur.LCG128Mix().load(R.LCG128Mix(op[2], multiplier=x.m.m.mult).state)
            fresh.config(x.m.m.mult, x.m.m.dm, x.m.m.post, x.m.m.out)
            x.m = Mdl(fresh)
        elif k == "drop":
            pool.remove(x)
            del x
            reuse.extend(PROTO(lambda hi, lo: 0) for _ in range(2))     # take over what was freed
        elif k == "advance":
            x.bg.advance(op[2])
            x.m.m.jump(op[2] % (1 << 128))
        elif k == "jumped":
            m = clone(x.m.m)
            m.jump(op[2] * JUMP % (1 << 128))
            pool.append(One(x.bg.jumped(op[2]), m))
        elif k == "copy":
            pool.append(One(copy.copy(x.bg), clone(x.m.m)))
    for i, x in enumerate(pool):
        out_of(x.m.m, x.bg.state["state"]["output_func"])
        for o in (("u32", 1), ("raw", 2), ("u32", 2), ("u64", 1), ("dbl", 1)):
            same([x.drv.op(*o)], [x.m.op(*o)], f"generator {i} of {len(pool)} at the end, {o}")
        custom.add(callable(x.m.m.out))
    if len(pool) > 1 and custom == {True, False}:
        rec.hit("own and named output functions together")
    elif True in custom:
        rec.hit("own output function")


def functions(*kinds, quick=150, **kw):
    """Histories of these kinds of operations (next to creation and drawing)."""
    op = st.one_of(OPS["draw"], *[OPS[k] for k in kinds for _ in range(2)], OPS["new"])
    strat = st.tuples(OPS["new"], OPS["new"], st.lists(op, min_size=2, max_size=14)).map(
        lambda t: [t[0], t[1], *t[2]])
    return Sub("output functions", lambda: strat, body, quick=quick, **kw)
