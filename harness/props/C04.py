"""numpy-compatible modes against numpy.random."""

import warnings

from hypothesis import strategies as st
import numpy as np
import randomgen as R

from ..common import Drv, counts, delta, draws, same, seed_int, uint
from ..core import Sub, check
from .C03 import seed_pair, seed_spec

RULE = ("One case: MT19937, Philox, SFC64 and PCG64 in numpy-compatible mode and numpy's generator of "
        "the same seed (any spelling) or key and counter, or loaded with each other's inner state, "
        "then one history of raw/uint32/uint64/double draws, numpy Generator methods, advances, jumps "
        "and re-seedings applied to both. Non-trivial: at least one Generator method, repositioning or "
        "re-seeding besides raw draws.")
N = np.random

PAIRS = {
    "MT19937": (lambda s: R.MT19937(s, numpy_seed=True), N.MT19937),
    "Philox": (lambda s: R.Philox(s, numpy_seed=True), N.Philox),
    "SFC64": (lambda s: R.SFC64(s, numpy_seed=True), N.SFC64),
    "PCG64": (lambda s: R.PCG64(s, numpy_seed=True, variant="xsl-rr"), N.PCG64),
    "PCG64-plain": (lambda s: R.PCG64(s, variant="xsl-rr"), N.PCG64),
}
METHODS = {
    "normal": lambda g, n: g.standard_normal(n),
    "normal32": lambda g, n: g.standard_normal(n, dtype=np.float32),
    "exp": lambda g, n: g.standard_exponential(n),
    "f32": lambda g, n: g.random(n, dtype=np.float32),
    "int8": lambda g, n: g.integers(0, 100, n, dtype=np.uint8),
    "int": lambda g, n: g.integers(-5, 1 << 40, n),
    "gamma": lambda g, n: g.standard_gamma(2.5, n),
    "perm": lambda g, n: g.permutation(n),
    "bytes": lambda g, n: list(g.bytes(n)),
    "binom": lambda g, n: g.binomial(40, 0.4, n),
    "choice": lambda g, n: g.choice(100, n % 50, replace=False),
}


def ops(name):
    kinds = [st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), counts)] * 3
    kinds.append(st.tuples(st.sampled_from(sorted(METHODS)), counts))
    kinds.append(st.tuples(st.just("raw"), st.sampled_from([311, 623, 624, 700])))
    if name == "Philox":
        kinds.append(st.tuples(st.just("advance"), uint(256).map(lambda v: v or 1)))
    if name.startswith("PCG64"):
        kinds.append(st.tuples(st.just("advance"), delta(128)))
    if name in ("MT19937", "Philox"):
        kinds.append(st.tuples(st.just("jumped"), st.integers(1, 3)))
    return st.lists(st.one_of(*kinds), min_size=1, max_size=8)


def run(name, a, b, todo, rec, what):
    for op, n in todo:
        if op in METHODS:
            x, y = METHODS[op](N.Generator(a), n), METHODS[op](N.Generator(b), n)
            check(np.array_equal(x, y), f"{what}: Generator {op}({n}) differs from numpy")
            rec.hit(op)
        elif op == "advance":
            a.advance(n)
            b.advance(n)
            rec.hit(op)
        elif op == "jumped":
            a, b = a.jumped(n), b.jumped(n)
            rec.hit(op)
        else:
            same([Drv(a).op(op, n)], [Drv(b).op(op, n)], f"{what} {op}({n})")
    same([Drv(a).op("u32", 3), Drv(a).op("raw", 9)], [Drv(b).op("u32", 3), Drv(b).op("raw", 9)],
         f"{what} at the end")
    return a, b


def inner(s):
    """The part of a state both libraries share."""
    out = {k: v for k, v in s.items() if k not in ("bit_generator", "variant", "number", "width")}
    return out


def seeded(name):
    mine, theirs = PAIRS[name]
    strat = st.tuples(seed_spec(), ops(name), st.one_of(st.none(), seed_spec()), ops(name),
                      st.sampled_from([None] * 6 + ["numpy", "NumPy"]))

    def body(case, rec):
        spec, first, reseed, then, mode = case
        ra, rb = seed_pair(spec)
        if mode is None or name == "PCG64-plain":
            a = mine(ra)
        else:  # the older spelling of numpy_seed=True
            kw = {"variant": "xsl-rr"} if name == "PCG64" else {}
            with warnings.catch_warnings(record=True) as told:
                warnings.simplefilter("always")
                a = getattr(R, name)(ra, mode=mode, **kw)
            check([w.category for w in told] == [FutureWarning], f"{name} mode={mode}: warned {told}")
            rec.hit("mode")
        a, b = run(name, a, theirs(rb), first, rec, name)
        if reseed is not None:
            ra, rb = seed_pair(reseed)
            if name == "MT19937" and not hasattr(a, "seed"):
                return
            a.seed(ra)
            run(name, a, theirs(rb), then, rec, f"{name} re-seeded")
            rec.hit("re-seeded")
        else:
            run(name, a, b, then, rec, name)

    return lambda: strat, body


def philox_key():
    strat = st.tuples(uint(128), uint(256), st.booleans(), st.booleans(), ops("Philox"))

    def body(case, rec):
        key, counter, mode, arrays, todo = case
        ak = np.array([key & (1 << 64) - 1, key >> 64], dtype=np.uint64) if arrays else key
        ac = np.array([counter >> 64 * i & (1 << 64) - 1 for i in range(4)],
                      dtype=np.uint64) if arrays else counter
        a = R.Philox(key=ak, counter=ac, numpy_seed=mode)
        run("Philox", a, N.Philox(key=ak, counter=ac), todo, rec, f"Philox key={key} counter={counter}")
        rec.hit("keyed")

    return lambda: strat, body


TRANSPLANT = {
    "MT19937": (lambda: R.MT19937(3), N.MT19937), "Philox": (lambda: R.Philox(3), N.Philox),
    "SFC64": (lambda: R.SFC64(3), N.SFC64), "PCG64": (lambda: R.PCG64(3, variant="xsl-rr"), N.PCG64),
    "PCG64DXSM": (lambda: R.PCG64DXSM(3), N.PCG64DXSM),
    "PCG64-dxsm": (lambda: R.PCG64(3, variant="dxsm"), N.PCG64DXSM),
}


def transplant(name):
    mine, theirs = TRANSPLANT[name]
    kind = name.split("-")[0]
    strat = st.tuples(seed_int(), draws(5, True), ops(kind if kind != "PCG64DXSM" else "PCG64"),
                      st.sampled_from([None, None, None, 0, 1, 623, 624]), st.sampled_from(["dict", 3, 5]))

    def body(case, rec):
        seed, before, todo, pos, legacy = case
        b = theirs(seed)
        Drv(b).run(before)
        a = mine()
        if kind == "MT19937" and pos is not None:
            t = b.state
            t["state"]["pos"] = pos
            b.state = t
        if kind == "MT19937" and legacy != "dict":
            a.state = np.random.RandomState(b).get_state(legacy=True)[:legacy]
            run(kind, a, b, todo, rec, f"{name} with numpy's legacy state, position {pos}")
            rec.hit("legacy")
            return
        s, t = a.state, b.state
        for k in t:
            if k == "bit_generator":
                continue
            if kind == "SFC64" and k == "state":
                t["state"] = dict(zip("abcw", (int(v) for v in t["state"]["state"])))
            s[k] = {**s[k], **t[k]} if isinstance(t[k], dict) else t[k]
        a.state = s
        run(kind, a, b, todo, rec, f"{name} with numpy's state")
        rec.hit("transplanted")

    return lambda: strat, body


def subs(tier):
    out = [Sub(f"seeded/{n}", *seeded(n), quick=400, shards=4 if n == "MT19937" else 1) for n in PAIRS]
    out.append(Sub("key/Philox", *philox_key(), quick=400))
    out += [Sub(f"state/{n}", *transplant(n), quick=300, shards=2 if n == "MT19937" else 1) for n in TRANSPLANT]
    return out
