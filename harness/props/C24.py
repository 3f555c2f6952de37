"""ExtendedGenerators are views of their bit generator: shared, copied and pickled with it."""

import copy
import ctypes
import pickle
import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import RDRAND, ExtendedGenerator
from randomgen import _pickle

from ..common import canon, delta, outputs, raises, same, seed_int, uint, values
from ..core import Sub, check
from ..gens import CFGS
from .C06 import HOW, dup
from .C22 import EXT, LEG, SMALL, extended, legacy

RULE = ("One case: a bit generator (every class and variant, numpy's too) with several views on it (two "
        "ExtendedGenerators, a numpy Generator, itself) through which drawing methods, re-seedings, jumps, "
        "advances and state assignments (other variants' states too) go in a generated order; each must "
        "give what a view made at that moment gives on a twin. Or a view with a generated history, alone or in a "
        "group sharing a bit generator, pickled or copied once or twice; the copies must go on alike, "
        "share what was shared and nothing with the originals. Non-trivial: two views draw, a state of "
        "another variant is assigned, or the history is not empty.")


class Np:
    """numpy's own bit generators."""

    def __init__(self, cls):
        self.cls = cls
        self.cname = self.name = "numpy." + cls.__name__
        self.adv = 128 if cls is np.random.PCG64 else 0

    def make(self, seed=0):
        return self.cls(seed)

    def __repr__(self):
        return self.name


NPY = [Np(c) for c in (np.random.PCG64, np.random.PCG64DXSM, np.random.MT19937, np.random.SFC64,
                       np.random.Philox)]
FAMILY = {}
for _c in CFGS:
    FAMILY.setdefault(_c.cname, []).append(_c)


def draw(view, kind, a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if isinstance(view, ExtendedGenerator):
            return extended(view, kind, a)
        if isinstance(view, np.random.Generator):
            return legacy(view, kind, a)
        return [int(v) for v in view.random_raw(a[0] * 3)]


ARGS = st.tuples(st.integers(1, 3), SMALL, st.integers(0, 2))


def equal(x, y, what):
    check(type(x) is type(y), f"{what}: {type(x)} and {type(y)}")
    if isinstance(x, np.ndarray):
        check(x.dtype == y.dtype and x.shape == y.shape, f"{what}: {x.dtype}{x.shape}, {y.dtype}{y.shape}")
        check(np.array_equal(x, y), f"{what}: {x.ravel()[:6]} and {y.ravel()[:6]}")
    else:
        check(x == y, f"{what}: {x!r} and {y!r}")


# ---------------------------------------------------------------- shared streams
def shared(cfg):
    fam = FAMILY.get(cfg.cname, [cfg])
    moves = [st.tuples(st.just("state"), st.integers(0, 2), st.tuples(
        st.sampled_from(fam), uint(32), st.integers(0, 5)))] * 2
    if not isinstance(cfg, Np) and cfg.cname != "Squares":
        moves.append(st.tuples(st.just("seed"), st.just(0), uint(64)))
    if cfg.adv:
        moves.append(st.tuples(st.just("advance"), st.just(0),
                               st.integers(1, 1 << 60) if cfg.cname == "Squares" else delta(cfg.adv)))
    drawing = st.one_of(
        st.tuples(st.just("draw"), st.integers(0, 1), st.tuples(st.sampled_from(EXT), ARGS)),
        st.tuples(st.just("draw"), st.integers(0, 1), st.tuples(st.sampled_from(EXT), ARGS)),
        st.tuples(st.just("draw"), st.just(2), st.tuples(st.sampled_from(LEG), ARGS)),
        st.tuples(st.just("draw"), st.just(3), st.tuples(st.just("raw"), ARGS)))
    strat = st.tuples(uint(64), st.lists(st.one_of(drawing, drawing, *moves).map(
        lambda t: (t[0], t[1], (t[2][0].name, *t[2][1:])) if t[0] == "state" else t),
        min_size=2, max_size=9))
    by = {c.name: c for c in fam}

    def body(case, rec):
        seed, steps = case
        a, b = cfg.make(seed), cfg.make(seed)
        views = [ExtendedGenerator(a), ExtendedGenerator(a), np.random.Generator(a), a]
        used = set()
        now = cfg.name
        for kind, i, arg in steps:
            what = f"{cfg}: {kind} {arg} through view {i}"
            if kind == "draw":
                w = (ExtendedGenerator(b), ExtendedGenerator(b), np.random.Generator(b), b)[i]
                equal(draw(views[i], *arg), draw(w, *arg), what)
                used.add(i)
            elif kind == "state":
                src = by[arg[0]].make(arg[1])
                src.random_raw(arg[2])
                if cfg.cname == "SFMT" or cfg.cname == "Squares" and i == 0:
                    src.ctypes.next_uint32(src.ctypes.state)
                s = src.state
                b.state = copy.deepcopy(s)
                if i == 2:
                    a.state = s
                else:
                    views[i].state = s
                if arg[0] != now:
                    now = arg[0]
                    # numpy's Generator copies the functions (a known finding)
                    views[2] = np.random.Generator(a)
                    rec.hit("other variant's state")
            elif kind == "seed":
                a.seed(arg)
                b.seed(arg)
            else:
                a.advance(arg)
                b.advance(arg)
        for v in views[:2]:
            check(v.bit_generator is a, f"{cfg}: bit_generator is not the one given")
            check(canon(v.state) == canon(b.state), f"{cfg}: state of the view differs")
            check(str(v) == f"ExtendedGenerator({type(a).__name__})" and str(v) in repr(v), f"{v!r}")
        if len(used) > 1:
            rec.hit(f"{len(used)} views")

    return lambda: strat, body


# -------------------------------------------------------------- copies and pickles
def history(cfg):
    h = st.tuples(st.just("draw"), st.integers(0, 1), st.tuples(st.sampled_from(EXT), ARGS))
    return st.lists(h, max_size=4)


def persisted(cfg):
    strat = st.tuples(seed_int(), history(cfg), st.sampled_from(HOW),
                      st.one_of(st.none(), st.sampled_from(HOW)),
                      st.lists(st.tuples(st.sampled_from(EXT), ARGS), min_size=1, max_size=4), st.booleans())

    def body(case, rec):
        seed, hist, how, twice, ops, pending = case
        a = cfg.make(np.random.SeedSequence(seed))
        g = ExtendedGenerator(a)
        for _, _, arg in hist:
            draw(g, *arg)
        if pending:
            g.uintegers(bits=32)
        frozen = canon(a.state)
        h = dup(g, how)
        if twice is not None:
            h = dup(h, twice)
        what = f"{cfg} after {how}"
        check(type(h) is ExtendedGenerator and h is not g, f"{what}: {type(h)}")
        b = h.bit_generator
        check(type(b) is type(a) and b is not a, f"{what}: bit generator {type(b)}")
        check(canon(g.state) == frozen and g.bit_generator is a, f"{what}: original changed")
        check(canon(h.state) == frozen, f"{what}: state differs")
        ref = cfg.make(7)
        ref.state = a.state
        fresh = ExtendedGenerator(ref)
        mine = []
        for op in ops:
            mine.append(draw(h, *op))
            equal(mine[-1], draw(fresh, *op), f"{what}: {op}")
        check(canon(g.state) == frozen, f"{what}: drawing from the copy changes the original")
        after = canon(h.state)
        for op, v in zip(ops, mine):
            equal(v, draw(g, *op), f"{what}: {op} of the original")
        check(canon(h.state) == after, f"{what}: drawing from the original changes the copy")
        check(values(g.state) == values(h.state), f"{what}: states diverge")
        sa, sb = a.seed_seq, b.seed_seq
        check(np.array_equal(sa.generate_state(4), sb.generate_state(4)), f"{what}: seed sequence differs")
        # a re-seeded copy is the configuration's generator
        if hasattr(a, "seed") and cfg.cname not in ("Squares", "SFC64"):
            h.bit_generator.seed(99)
            a.seed(99)
            same(outputs(a, [("raw", 9)]), outputs(h.bit_generator, [("raw", 9)]), f"{what}: seed() of the copy")
        if hist or pending:
            rec.hit(str(how))

    return lambda: strat, body


def groups(cfgs):
    strat = st.tuples(st.sampled_from([c.name for c in cfgs]), seed_int(),
                      st.lists(st.integers(0, 3), min_size=2, max_size=5),
                      st.sampled_from([h for h in HOW if h != "copy"]),
                      st.lists(st.tuples(st.integers(0, 4), st.sampled_from(EXT), ARGS), max_size=5))
    by = {c.name: c for c in cfgs}

    def body(case, rec):
        name, seed, kinds, how, ops = case
        bgs = [by[name].make(seed), by[name].make(seed + 1)]

        def make(k):
            return [lambda: ExtendedGenerator(bgs[0]), lambda: ExtendedGenerator(bgs[1]),
                    lambda: bgs[0], lambda: bgs[1]][k]()

        group = [make(k) for k in kinds]
        other = dup(group, how)

        def core(v):
            return v.bit_generator if isinstance(v, ExtendedGenerator) else v

        for i, x in enumerate(group):
            for j, y in enumerate(group):
                check((core(x) is core(y)) == (core(other[i]) is core(other[j])),
                      f"{name} {how}: sharing of {i} and {j} ({kinds}) is not kept")
            check(core(other[i]) is not core(x), f"{name} {how}: the copy shares with the original")
        for i, kind, a in ops:
            i %= len(group)
            if not isinstance(group[i], ExtendedGenerator):
                kind = "raw"
            equal(draw(group[i], kind, a), draw(other[i], kind, a), f"{name} {how}: {kind} {a} of {i}")
        rec.hit(str(how))

    return lambda: strat, body


def old_pickles(cfgs):
    """Pickles made by earlier versions: a class name, then the state."""
    names = sorted(_pickle.BitGenerators)
    ok = [c.name for c in cfgs]
    by = {c.name: c for c in cfgs}
    strat = st.tuples(st.sampled_from(ok), seed_int(), st.sampled_from(["str", "bytes"]), st.booleans(),
                      st.lists(st.tuples(st.sampled_from(EXT), ARGS), min_size=1, max_size=3))

    def body(case, rec):
        name, seed, spell, full, ops = case
        cfg = by[name]
        a = cfg.make(seed)
        a.random_raw(5)
        n = cfg.cname
        if full:
            n = f"{cfg.cls.__module__}.{n}"
        check(n in names, f"{n} is not a known bit generator name")
        arg = n if spell == "str" else n.encode()
        g = _pickle.__dict__["__extended_generator_ctor"](arg)
        check(type(g.bit_generator) is cfg.cls, f"{arg}: {type(g.bit_generator)}")
        g.__setstate__(a.state)
        check(canon(g.__getstate__()) == canon(a.state), f"{arg}: state")
        fresh = ExtendedGenerator(a)
        for op in ops:
            equal(draw(g, *op), draw(fresh, *op), f"old pickle of {cfg}: {op}")
        b = _pickle.__dict__["__bit_generator_ctor"](arg)
        check(type(b) is cfg.cls, f"{arg}: {type(b)}")
        rec.hit(spell)

    return lambda: strat, body


def capsule(name):
    new = ctypes.pythonapi.PyCapsule_New
    new.restype = ctypes.py_object
    new.argtypes = (ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p)
    return new(1, name, None)


KEEP = [b"Bitgenerator", b"", b"BitGenerator2", b"numpy"]


class Fake:
    def __init__(self, cap):
        self.capsule = cap
        self.lock = None
        self.state = {}


BAD = {"class": lambda n: CFGS[n % len(CFGS)].cls, "int": lambda n: n, "name": lambda n: "MT19937",
       "generator": lambda n: np.random.Generator(np.random.PCG64(n)),
       "seed sequence": lambda n: np.random.SeedSequence(n),
       "capsule of another kind": lambda n: Fake(capsule(KEEP[n % 4])),
       "not a capsule": lambda n: Fake([1, None, "BitGenerator", b"x"][n % 4])}


def invalid():
    strat = st.tuples(st.sampled_from(sorted(BAD)), st.integers(1, 300),
                      st.text("MT19937PCGanumpy.r", max_size=9))

    def body(case, rec):
        kind, n, text = case
        raises((ValueError, TypeError, AttributeError), lambda: ExtendedGenerator(BAD[kind](n)),
               f"ExtendedGenerator({kind})")
        for f in ("__extended_generator_ctor", "__bit_generator_ctor"):
            if text not in _pickle.BitGenerators:
                raises(ValueError, lambda: _pickle.__dict__[f](text), f"{f}({text!r})")
        g = ExtendedGenerator()
        check(type(g.bit_generator).__name__ == "PCG64" and g.bit_generator.variant == "dxsm", "the default")
        frozen = canon(g.state)
        for bad in (n, text, None, {"bit_generator": text or "x"}, CFGS[0].make(1)):
            raises((ValueError, TypeError), lambda: setattr(g, "state", bad), f"state = {bad!r}")
        check(canon(g.state) == frozen, "a rejected state changed the generator")
        check(values(g.state) != values(ExtendedGenerator().state), "two default generators are the same")
        rec.hit(kind)

    return lambda: strat, body


def hardware():
    strat = st.tuples(st.sampled_from(HOW), st.integers(1, 9))

    def body(case, rec):
        how, n = case
        try:
            g = ExtendedGenerator(RDRAND())
        except RuntimeError:
            return
        h = dup(g, how)
        check(type(h.bit_generator) is RDRAND, f"{type(h.bit_generator)}")
        try:
            h.uintegers(n)
        except RuntimeError:
            return
        rec.hit(str(how))

    return lambda: strat, body


def subs(tier):
    out = []
    for c in CFGS + NPY:
        heavy = c.cname in ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "EFIIX64")
        out.append(Sub(f"shared/{c}", *shared(c), quick=30 if heavy else 50))
        out.append(Sub(f"persisted/{c}", *persisted(c), quick=15 if heavy else 25))
    out.append(Sub("groups", *groups(CFGS + NPY), quick=400, shards=4))
    out.append(Sub("old pickles", *old_pickles(CFGS), quick=300, shards=2))
    out.append(Sub("invalid", *invalid(), quick=100))
    out.append(Sub("rdrand", *hardware(), quick=10))
    return out
