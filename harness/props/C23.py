"""Memory safety: the whole library under AddressSanitizer, fed the other checks' cases and malformed input."""

import copy
import ctypes
import gc
import importlib
import pickle
import re
import warnings

from hypothesis import errors, strategies as st
import numpy as np
import randomgen as R
from randomgen import ExtendedGenerator, UserBitGenerator
from randomgen._seed_sequence import SeedSequence as OwnSequence
from randomgen.entropy import random_entropy, seed_by_array
from randomgen.squares import generate_keys

from ..common import canon, outputs, uint
from ..core import Sub, check
from ..gens import CFGS
from .C22 import EXT, LEG, extended, legacy

BUDGET = 1

RULE = ("The library is compiled with AddressSanitizer (and bounds, object-size and null checks); a case is "
        "an operation sequence whose only oracle is that no access leaves its buffer, no freed memory is "
        "used, nothing crashes and nothing leaks. Cases: those of every other check; states with one to "
        "three parts replaced by wrong values, lengths, layouts and types, then draws, jumps and pickles; "
        "every public callable with generated, mostly malformed, arguments; objects dropped in every order "
        "while those made from them go on; operations repeated while the allocated memory is watched. "
        "Non-trivial: the case's own rule, a mutated state or argument, an object used after its source "
        "was dropped.")


# ------------------------------------------------------------------ the other checks' cases
OTHERS = {"C01": 500, "C02": 300, "C03": 1200, "C04": 150, "C05": 900, "C06": 500, "C07": 500, "C08": 300,
          "C09": 100, "C10": 300, "C11": 500, "C12": 700, "C13": 100, "C14": 600, "C15": 300, "C16": 400,
          "C17": 500, "C18": 900, "C19": 900, "C20": 700, "C21": 300, "C22": 250, "C24": 600, "C25": 2500, "C27": 200}
FAULTS = ("interrupted", "unavailable")  # these replace system calls in processes of their own


def guarded(body, case, rec):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            body(case, rec)
    except errors.HypothesisException:
        raise
    except Exception:  # the other check's business
        rec.label("raised")


def replayed(prop, tier):
    mod = importlib.import_module(f"harness.props.{prop}")
    by = {s.name: s for s in mod.subs(tier) if s.name not in FAULTS}
    made = {}

    def inner(name):
        if name not in made:
            made[name] = by[name].strategy()
        return made[name].map(lambda c: (name, c))

    def body(case, rec):
        name, c = case
        guarded(by[name].body, c, rec)

    return lambda: st.sampled_from(sorted(by)).flatmap(inner), body


# ------------------------------------------------------------------ malformed values
INTS = st.one_of(
    st.sampled_from([-1, -2, 0, 1, 2, 3, 5, 7, 15, 16, 17, 63, 64, 65, 255, 256, 311, 312, 313, 381, 382, 383, 623,
                     624, 625, 1000, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**63 - 1,
                     2**63, -2**63, 2**64 - 1, 2**64, 2**127, 2**128 - 1, 2**128, 2**129, 2**256, 2**300]),
    uint(64), st.integers(-40, 700))
SMALLINTS = st.integers(-3, 40)
JUNK = st.sampled_from([None, True, 1.5, -0.0, float("nan"), float("inf"), "", "x", "0x10", b"12", (), [], {}, [[]],
                        [None], ["a"], [1.5], {"state": 1}, 1j])
ARRAY = st.tuples(st.just("array"),
                  st.sampled_from(["u1", "u2", "u4", "u8", "i4", "i8", "f4", "f8", "O", "?", ">u4", ">u8", "c16"]),
                  st.lists(st.integers(0, 6), max_size=3).map(tuple) | st.sampled_from([(1,), (2,), (4,), (8,), (624,)]),
                  st.sampled_from(["zero", "one", "max", "ramp"]),
                  st.sampled_from(["c", "f", "reversed", "strided", "readonly", "unaligned"]))
ANY = st.one_of(INTS.map(lambda v: ("v", v)), JUNK.map(lambda v: ("v", v)), ARRAY,
                st.lists(INTS, max_size=9).map(lambda v: ("v", v)), INTS.map(lambda v: ("np", v)))


def array(dtype, shape, how, layout):
    dt = np.dtype(dtype)
    n = int(np.prod(shape, dtype=int))
    v = np.zeros(n, dt)
    if how == "one":
        v[...] = 1
    elif how == "ramp":
        v[...] = np.arange(n) % 2 if dt == bool else np.arange(n)
    elif how == "max" and dt.kind in "iu":
        v[...] = np.iinfo(dt).max
    elif how == "max":
        v[...] = True if dt == bool else 1e300 if dt.kind == "f" and dt.itemsize == 8 else 7
    return laid(v.reshape(shape), layout)


def laid(v, layout):
    if layout == "f":
        return np.asfortranarray(v)
    if not v.ndim:
        return v
    if layout == "reversed":
        return np.ascontiguousarray(v[::-1])[::-1]
    if layout == "strided":
        return np.repeat(v, 2, axis=0)[::2]
    if layout == "readonly":
        v.setflags(write=False)
        return v
    if layout == "unaligned" and v.dtype != object:
        b = np.zeros(v.nbytes + 1, np.uint8)
        out = b[1:].view(v.dtype).reshape(v.shape)
        out[...] = v
        return out
    return v


def value(d):
    kind, *a = d
    if kind == "array":
        return array(*a)
    if kind == "np":
        v = a[0]
        for t in (np.int64, np.uint64, np.float64):
            try:
                return t(v)
            except OverflowError:
                pass
        return v
    if kind == "v":
        return copy.deepcopy(a[0])
    raise AssertionError(kind)


# ------------------------------------------------------------------ malformed states
def leaves(d, p=()):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, p + (k,))
        else:
            yield p + (k,)


def at(d, path):
    for k in path[:-1]:
        d = d[k]
    return d


RESIZE = st.one_of(
    st.tuples(st.just("length"), st.sampled_from([0, 1, 2, 3, -1, -2, 100, 1000])),
    st.tuples(st.just("dtype"), st.sampled_from(["u1", "u4", "u8", "i8", "f8", "O", ">u8", ">u4"])),
    st.tuples(st.just("shape"), st.sampled_from(["2d", "column", "0d"])),
    st.tuples(st.just("layout"), st.sampled_from(["reversed", "strided", "readonly", "unaligned"])),
    st.tuples(st.just("list"), st.integers(-1, 1)),
    st.tuples(st.just("words"), INTS))
MUTATE = st.one_of(
    RESIZE, RESIZE, ANY.map(lambda v: ("value", v)), INTS.map(lambda v: ("value", ("v", v))),
    INTS.map(lambda v: ("value", ("v", v))), st.tuples(st.just("delete"), st.none()),
    st.tuples(st.just("other"), st.integers(0, 5)))


def mutated(v, how, a, other):
    if how == "value":
        return value(a)
    if how == "other":
        return other
    if not isinstance(v, np.ndarray):
        return v
    if how == "length":  # in memory of its own, so that reading on is seen
        return v[:a].copy() if a < v.size else np.resize(v, max(a, v.size * 2))
    if how == "dtype":
        return v.astype(a)
    if how == "shape":
        return {"2d": v.reshape(1, -1), "column": v.reshape(-1, 1), "0d": v.ravel()[:1].reshape(())}[a]
    if how == "layout":
        return laid(v.copy(), a)
    if how == "list":
        return [int(x) for x in v.ravel()][:a or None] + [0] * max(a, 0)
    if how == "words":
        return [a] * v.size
    raise AssertionError(how)


USES = st.lists(st.one_of(
    st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), st.sampled_from([1, 2, 3, 17, 400, 900])),
    st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), st.sampled_from([1, 2, 3, 17, 400, 900])),
    st.tuples(st.sampled_from(["jumped", "jump", "advance", "pickle", "again", "extended", "numpy", "seed"]),
              st.integers(0, 9))), min_size=2, max_size=7)


def use(bg, kind, n):
    if kind in ("raw", "u32", "u64", "dbl"):
        outputs(bg, [(kind, n)])
    elif kind == "jumped":
        bg.jumped(n).random_raw(50)
    elif kind == "jump":
        bg.jump(n)
    elif kind == "advance":
        bg.advance((1 << 7 * n) + n)
    elif kind == "pickle":
        pickle.loads(pickle.dumps(bg)).random_raw(50)
    elif kind == "again":
        bg.state = bg.state
    elif kind == "seed":
        bg.seed(n)
    elif kind == "extended":
        extended(ExtendedGenerator(bg), EXT[n % len(EXT)], (2, 5, n % 3))
    elif kind == "numpy":
        legacy(np.random.Generator(bg), LEG[n % len(LEG)], (2, 5, n % 3))


def malformed(cname):
    fam = [c for c in CFGS if c.cname == cname]
    by = {c.name: c for c in fam}
    strat = st.tuples(st.sampled_from(sorted(by)), uint(32), st.sampled_from(sorted(by)), st.integers(0, 9),
                      st.lists(st.tuples(st.integers(0, 20), MUTATE), min_size=1, max_size=3), USES)

    def body(case, rec):
        name, seed, other, draws, muts, uses = case
        bg = by[name].make(seed)
        use(bg, "u32", draws)
        donor = by[other].make(seed)
        donor.random_raw(draws)
        state, d = copy.deepcopy(bg.state), copy.deepcopy(donor.state)
        for i, (how, a) in muts:
            paths = list(leaves(state))
            p = paths[i % len(paths)]
            try:
                given = at(d, p)[p[-1]]
            except KeyError:
                given = None
            t = at(state, p)
            if how == "delete":
                del t[p[-1]]
                if not list(leaves(state)):
                    break
            else:
                try:
                    t[p[-1]] = mutated(t[p[-1]], how, a, given)
                except (TypeError, ValueError, OverflowError):
                    pass
        try:
            bg.state = state
            rec.label("accepted")
        except Exception:
            rec.label("rejected")
        for kind, n in uses:
            try:
                use(bg, kind, n)
            except Exception:
                rec.label("raised")
        rec.hit()

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


def resized():
    """One array of a state that is otherwise right, in a buffer that ends where it does."""
    with_arrays = {}
    for c in CFGS:
        ks = [p for p, v in ((p, at(s, p)[p[-1]]) for s in [c.make(1).state] for p in leaves(s))
              if isinstance(v, (np.ndarray, list, tuple))]
        if ks:
            with_arrays[c.name] = ks
    by = {c.name: c for c in CFGS}
    strat = st.sampled_from(sorted(with_arrays)).flatmap(lambda n: st.tuples(
        st.just(n), st.sampled_from(with_arrays[n]),
        st.one_of(st.integers(-3, 3), st.integers(-700, 700), st.sampled_from([-10**6])),
        st.sampled_from(["same", "same", "list", "tuple", "i8", "u8", "u4", "2d", "readonly", "reversed"]),
        st.integers(0, 3), USES))

    def body(case, rec):
        name, path, delta, how, draws, uses = case
        bg = by[name].make(1)
        use(bg, "u32", draws)
        state = copy.deepcopy(bg.state)
        v = np.asarray(at(state, path)[path[-1]])
        v = np.resize(v.ravel(), max(v.size + delta, 0)).copy()
        if how in ("list", "tuple"):
            v = (list if how == "list" else tuple)(v.tolist())
        elif how == "2d":
            v = v.reshape(1, -1)
        elif how in ("readonly", "reversed"):
            v = laid(v, how)
        elif how != "same":
            v = v.astype(how)
        at(state, path)[path[-1]] = v
        try:
            bg.state = state
            rec.label("accepted")
        except Exception as e:
            rec.label(type(e).__name__)
        for kind, n in uses:
            try:
                use(bg, kind, n)
            except Exception:
                rec.label("raised")
        rec.hit(how)

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


def quietly(body, case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        body(case, rec)


# ------------------------------------------------------------------ malformed arguments
def names(doc, fn):
    """The parameters a docstring's first lines give for fn."""
    m = re.search(rf"{fn}\((.*?)\)\n", doc or "", re.S)
    return [] if not m else [a.split("=")[0].strip() for a in m[1].split(",")
                             if a.strip() not in ("", "*", "/") and "*" not in a]


SIZES = st.one_of(st.integers(-2, 40), st.sampled_from([2**31, 2**62, 2**63, 2**64, 2**70, -2**63]),
                  st.lists(st.integers(-1, 5), max_size=4).map(tuple),
                  st.sampled_from([(2**32, 2**32), (2**40, 0), (2**31, 2**31, 4), None, 1.5, "3", (1.5,)]))
WORDS = {"variant": ["xsl-rr", "dxsm", "dxsm-128", "cm-dxsm", "quad", "trio", 64, 32, "1.0"],
         "output": ["xsl-rr", "dxsm", "murmur3", "upper", "lower"], "mode": ["sequence", "legacy", "numpy", None],
         "rounds": [-2, 0, 1, 2, 7, 8, 20, 21, 33, 34, 35, 100], "number": [0, 1, 2, 3, 4, 8], "width": [0, 16, 32, 64],
         "size": [16, 32, 64, 128], "seed_size": [-1, 0, 1, 2, 3, 4, 100], "bits": [0, 16, 32, 64]}


def argument(name):
    if name in WORDS:
        return st.one_of(st.sampled_from(WORDS[name]).map(lambda v: ("v", v)),
                         st.sampled_from(WORDS[name]).map(lambda v: ("v", v)), JUNK.map(lambda v: ("v", v)))
    if name in ("iter", "retry", "n", "cnt", "max_bits", "min_bits"):
        return st.one_of(SMALLINTS.map(lambda v: ("v", v)), JUNK.map(lambda v: ("v", v)))
    return ANY


def calls(cfg):
    out = [("init", names(cfg.cls.__doc__, cfg.cls.__name__))]
    for m in ("seed", "advance", "jumped", "jump"):
        f = getattr(cfg.cls, m, None)
        if f is not None:
            out.append((m, names(f.__doc__, m) or {"seed": ["seed"], "advance": ["delta"]}.get(m, ["iter"])))
    out.append(("random_raw", ["size"]))
    return out


def call_strategy(cfg):
    def one(c):
        name, args = c
        if name == "random_raw":
            return st.tuples(st.just(name), st.fixed_dictionaries({"size": SIZES.map(lambda v: ("v", v))}))
        return st.tuples(st.just(name), st.lists(st.sampled_from(args), max_size=3, unique=True).flatmap(
            lambda ks: st.fixed_dictionaries({k: argument(k) for k in ks})))

    return st.one_of(*[one(c) for c in calls(cfg)])


def arguments(cname):
    fam = {c.name: c for c in CFGS if c.cname == cname}
    made = {}

    def pick(n):
        if n not in made:
            made[n] = st.tuples(st.just(n), st.lists(st.tuples(call_strategy(fam[n]), USES), min_size=1, max_size=3))
        return made[n]

    def body(case, rec):
        name, steps = case
        cfg = fam[name]
        bg = cfg.make(1)
        for (fn, kw), uses in steps:
            kw = {k: value(v) for k, v in kw.items()}
            try:
                if fn == "init":
                    bg = cfg.cls(**{**cfg.kwargs, **kw})
                elif fn == "jumped":
                    bg = bg.jumped(**kw)
                elif fn == "random_raw":
                    bg.random_raw(**kw)
                else:
                    getattr(bg, fn)(**kw)
                rec.label("accepted")
            except Exception as e:
                rec.label(type(e).__name__)
            rec.hit(fn)
            for kind, n in uses:
                try:
                    use(bg, kind, n)
                except Exception:
                    rec.label("raised")

    return lambda: st.sampled_from(sorted(fam)).flatmap(pick), lambda case, rec: quietly(body, case, rec)


# ------------------------------------------------------------------ other functions, malformed arguments
NUM = st.one_of(st.integers(-3, 6), st.floats(-3, 6), st.sampled_from(
    [float("nan"), float("inf"), -float("inf"), 1e308, 5e-324, 0.0]))
PARAM = st.one_of(NUM.map(lambda v: ("v", v)), NUM.map(lambda v: ("v", v)), ARRAY, JUNK.map(lambda v: ("v", v)),
                  st.tuples(st.just("eye"), st.integers(0, 5), st.integers(0, 3)),
                  st.lists(NUM, max_size=4).map(lambda v: ("v", v)))
SIZE = SIZES.map(lambda v: ("v", v))
DF = st.one_of(st.integers(-2, 30), st.sampled_from([2**31, 2**62, 2**63, -2**63])).map(lambda v: ("v", v))
OUT = st.one_of(st.tuples(st.just("array"), st.sampled_from(["f8", "f4", "g", ">f8", "i8", "O", "u1"]),
                          st.lists(st.integers(0, 6), max_size=3).map(tuple), st.just("zero"),
                          st.sampled_from(["c", "f", "reversed", "strided", "readonly", "unaligned"])),
                JUNK.map(lambda v: ("v", v)), st.just(("v", None)))
EXTENDED = {
    "uintegers": {"size": SIZE, "bits": st.sampled_from([32, 64, 16, 2**31, 2**63]).map(lambda v: ("v", v))},
    "random": {"size": SIZE, "out": OUT, "dtype": st.sampled_from(
        ["f8", "f4", "g", "d", "longdouble", "i4", "x", None, ">f8"]).map(lambda v: ("v", v))},
    "complex_normal": {"loc": PARAM, "gamma": PARAM, "relation": PARAM, "size": SIZE},
    "standard_wishart": {"df": DF, "dim": DF, "size": SIZE, "rescale": st.booleans().map(lambda v: ("v", v))},
    "wishart": {"df": st.one_of(DF, PARAM), "scale": PARAM, "size": SIZE, "rank": DF,
                "method": st.sampled_from(["svd", "eigh", "cholesky", "factor", "x"]).map(lambda v: ("v", v)),
                "check_valid": st.sampled_from(["raise", "warn", "ignore", "x"]).map(lambda v: ("v", v))},
    "multivariate_normal": {"mean": PARAM, "cov": PARAM, "size": SIZE,
                            "check_valid": st.sampled_from(["raise", "warn", "ignore"]).map(lambda v: ("v", v)),
                            "method": st.sampled_from(["svd", "eigh", "cholesky", "factor"]).map(lambda v: ("v", v))},
    "multivariate_complex_normal": {"loc": PARAM, "gamma": PARAM, "relation": PARAM, "size": SIZE,
                                    "method": st.sampled_from(["svd", "eigh", "cholesky"]).map(lambda v: ("v", v))},
}
NEEDED = {"standard_wishart": ("df", "dim"), "wishart": ("df", "scale"), "multivariate_normal": ("mean", "cov"),
          "multivariate_complex_normal": ("loc",)}


def extended_args():
    def one(name):
        kw = EXTENDED[name]
        need = NEEDED.get(name, ())
        return st.tuples(st.just(name), st.fixed_dictionaries(
            {k: kw[k] for k in need}, optional={k: v for k, v in kw.items() if k not in need}))

    strat = st.tuples(st.sampled_from([c.name for c in CFGS]), st.one_of(*[one(n) for n in EXTENDED]))
    by = {c.name: c for c in CFGS}

    def body(case, rec):
        cfg, (name, kw) = case

        def val(d):
            if d[0] == "eye":
                m = np.eye(d[1]) * 2
                return np.stack([m] * d[2]) if d[2] else m
            return value(d)

        kw = {k: val(v) for k, v in kw.items()}
        if name == "standard_wishart" and kw["dim"] > 30 and kw["dim"] < 2**60:
            return
        g = ExtendedGenerator(by[cfg].make(3))
        try:
            getattr(g, name)(**kw)
            rec.label("accepted")
        except Exception as e:
            rec.label(type(e).__name__)
        rec.hit(name)

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


def functions():
    seqs = [np.random.SeedSequence, OwnSequence]
    want = st.sampled_from(["u4", "u8", "u1", "i8", "x", None]).map(lambda v: ("v", v))
    kinds = {
        "seed_by_array": {"seed": ANY, "n": SMALLINTS.map(lambda v: ("v", v))},
        "random_entropy": {"size": SIZE, "source": st.sampled_from(["system", "auto", "fallback", "x", None]).map(
            lambda v: ("v", v))},
        "sequence": {"entropy": ANY, "spawn_key": ANY, "pool_size": st.integers(-1, 40).map(lambda v: ("v", v)),
                     "n": st.one_of(st.integers(-2, 60), st.sampled_from([2**31, 2**32, 2**62, 2**63])),
                     "dtype": want, "which": st.integers(0, 1), "spawn": st.integers(-1, 4)},
        "keys": {"n": st.integers(-2, 60), "seed": ANY},
        "weyl": {"n": st.integers(-2, 40), "max_bits": st.integers(-2, 70), "min_bits": st.integers(-2, 70)},
        "user": {"n": SIZE, "bits": st.sampled_from([32, 64])},
    }
    strat = st.sampled_from(sorted(kinds)).flatmap(lambda k: st.tuples(st.just(k), st.fixed_dictionaries(kinds[k])))

    def body(case, rec):
        kind, a = case
        a = {k: value(v) if isinstance(v, tuple) and v and v[0] in ("v", "np", "array") else v for k, v in a.items()}
        try:
            if kind == "seed_by_array":
                seed_by_array(a["seed"], a["n"])
            elif kind == "random_entropy":
                if isinstance(a["size"], int) and a["size"] > 1 << 20:
                    a["size"] = 1 << 70
                random_entropy(a["size"], a["source"])
            elif kind == "sequence":
                s = seqs[a["which"]](a["entropy"], spawn_key=a["spawn_key"], pool_size=a["pool_size"])
                for child in s.spawn(a["spawn"]):
                    child.generate_state(3)
                if a["n"] < 100 or a["n"] > 2**60:
                    s.generate_state(a["n"], a["dtype"])
                pickle.loads(pickle.dumps(s)).generate_state(4)
            elif kind == "keys":
                generate_keys(a["seed"], a["n"], False)
            elif kind == "weyl":
                R.SFC64(1).weyl_increments(a["n"], a["max_bits"], a["min_bits"])
            else:
                bg = UserBitGenerator(lambda _: 1 << a["bits"] - 1, a["bits"])
                np.random.Generator(bg).random(7)
                bg.random_raw(a["n"])
                bg.state = {}
            rec.label("accepted")
        except Exception as e:
            rec.label(type(e).__name__)
        rec.hit(kind)

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


# ------------------------------------------------------------------ lifetimes
DERIVE = ["state", "jumped", "extended", "numpy", "pickle", "copy", "deepcopy", "seed_seq", "lock", "bit_generator"]


def lifetimes():
    strat = st.tuples(st.sampled_from([c.name for c in CFGS]), st.lists(st.one_of(
        st.tuples(st.sampled_from(DERIVE), st.integers(0, 9)),
        st.tuples(st.just("drop"), st.integers(0, 9)),
        st.tuples(st.just("use"), st.integers(0, 9))), min_size=4, max_size=14))
    by = {c.name: c for c in CFGS}

    def derive(x, how):
        if isinstance(x, (ExtendedGenerator, np.random.Generator)) and how not in ("copy", "deepcopy", "pickle"):
            x = x.bit_generator
        if how == "jumped":
            return x.jumped(1)
        if how == "extended":
            return ExtendedGenerator(x)
        if how == "numpy":
            return np.random.Generator(x)
        if how == "pickle":
            return pickle.loads(pickle.dumps(x))
        if how == "copy":
            return copy.copy(x)
        if how == "deepcopy":
            return copy.deepcopy(x)
        if how == "bit_generator":
            return x
        return getattr(x, how)

    def touch(x):
        if isinstance(x, ExtendedGenerator):
            x.random(9)
            x.multivariate_normal([0, 1], np.eye(2))
        elif isinstance(x, np.random.Generator):
            x.standard_normal(9)
        elif isinstance(x, dict):
            canon(x)
        elif hasattr(x, "random_raw"):
            x.random_raw(400)
            outputs(x, [("dbl", 3), ("u32", 3)])
        elif hasattr(x, "generate_state"):
            x.generate_state(5)
            x.spawn(2)
        elif hasattr(x, "acquire"):
            with x:
                pass

    def body(case, rec):
        name, ops = case
        live = [by[name].make(5)]
        dropped = False
        for kind, i in ops:
            if not live:
                break
            x = live[i % len(live)]
            if kind == "drop":
                del live[i % len(live)], x
                gc.collect(0)
                dropped = True
            elif kind == "use":
                touch(x)
                if dropped:
                    rec.hit(type(x).__name__)
            else:
                try:
                    live.append(derive(x, kind))
                except (AttributeError, TypeError):
                    pass
            x = None
        for x in live:
            touch(x)

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


# ------------------------------------------------------------------ leaks
def allocated():
    return ctypes.CDLL(None)["__sanitizer_get_current_allocated_bytes"]


LEAKS = {
    "make": lambda c, bg, g: c.make(3),
    "seed": lambda c, bg, g: bg.seed(4),
    "state": lambda c, bg, g: setattr(bg, "state", bg.state),
    "bad state": lambda c, bg, g: setattr(bg, "state", {**bg.state, "state": "x", "s": [1.5]}),
    "bad key": lambda c, bg, g: setattr(bg, "state", {}),
    "bad arguments": lambda c, bg, g: c.make([1.5, "x"]),
    "draw": lambda c, bg, g: (bg.random_raw(3), bg.random_raw(), bg.random_raw(2, output=False)),
    "ctypes": lambda c, bg, g: c.make(1).cffi if not hasattr(bg, "x") else None,
    "jumped": lambda c, bg, g: bg.jumped(1),
    "jump": lambda c, bg, g: bg.jump(1),
    "advance": lambda c, bg, g: bg.advance(12345678901234567890),
    "pickle": lambda c, bg, g: pickle.loads(pickle.dumps(bg)),
    "copy": lambda c, bg, g: copy.deepcopy(g),
    "extended": lambda c, bg, g: (ExtendedGenerator(bg).random(5), g.uintegers(3), g.uintegers(bits=32)),
    "random": lambda c, bg, g: (g.random(dtype="f4"), g.random(3, dtype=np.longdouble), g.random(out=np.empty(3))),
    "random fails": lambda c, bg, g: g.random(2, out=np.empty(3)),
    "complex": lambda c, bg, g: (g.complex_normal(), g.complex_normal([1, 2], 3), g.complex_normal(size=4)),
    "normal": lambda c, bg, g: g.multivariate_normal([0, 0], np.eye(2), 3),
    "wishart": lambda c, bg, g: (g.wishart(5, np.eye(2), 3), g.wishart([1, 5], np.eye(2)), g.standard_wishart(1, 3)),
    "wishart fails": lambda c, bg, g: g.wishart(-1, np.eye(2), 3),
    "interfaces": lambda c, bg, g: (bg.ctypes, bg.cffi, bg.capsule, bg.lock, bg.seed_seq),
}


LIFE = st.lists(st.one_of(
    st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), st.sampled_from([1, 1, 2, 3, 5])),
    st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), st.sampled_from([1, 1, 2, 3, 5])),
    st.tuples(st.sampled_from(["jumped", "jump", "advance", "pickle", "again", "extended", "seed"]),
              st.integers(0, 2))), min_size=1, max_size=3).flatmap(
                  lambda v: st.sampled_from([v, v + [("u32", 1)]]))


def leaks(kinds):
    fam = {n: sorted(c.name for c in CFGS if c.cname == n) for n in sorted({c.cname for c in CFGS})}
    strat = st.tuples(st.sampled_from(sorted(fam)).flatmap(lambda n: st.sampled_from(fam[n])), kinds)
    by = {c.name: c for c in CFGS}
    bytes_now = allocated()
    bytes_now.restype = ctypes.c_size_t

    def body(case, rec):
        name, kind = case
        cfg = by[name]
        gc.freeze()  # collect what this case makes
        bg = cfg.make(2)
        g = ExtendedGenerator(bg)

        def life(c, bg, g):
            x = c.make(3)
            for op in kind:
                use(x, *op)

        f = LEAKS[kind] if isinstance(kind, str) else life

        def rounds(n):
            for _ in range(n):
                try:
                    f(cfg, bg, g)
                except Exception:
                    pass
            gc.collect()
            return bytes_now()

        rounds(10)
        last = rounds(10)
        for n in (25, 80, 250, 800, 2500, 5400):  # caches filling up do not grow with the number of calls
            now = rounds(n)
            grown = now - last
            last = now
            if grown < 14 * n:
                break
        else:
            check(False, f"{cfg}: {kind} loses memory: {grown} bytes in {n} calls")
        rec.hit(kind if isinstance(kind, str) else "life")

    return lambda: strat, lambda case, rec: quietly(body, case, rec)


def subs(tier):
    out = []
    for p, n in OTHERS.items():
        out.append(Sub(f"cases of {p}", *replayed(p, tier), quick=n, shards=2))
    for cname in sorted({c.cname for c in CFGS}):
        n = 80 * len([c for c in CFGS if c.cname == cname])
        out.append(Sub(f"malformed/{cname}", *malformed(cname), quick=min(n, 320) + 80))
        out.append(Sub(f"arguments/{cname}", *arguments(cname), quick=150,
                       shards=3 if cname in ("MT19937", "DSFMT", "SFMT") else 1))
    out.append(Sub("resized", *resized(), quick=1600, shards=4))
    out.append(Sub("extended", *extended_args(), quick=2000, shards=8))
    out.append(Sub("functions", *functions(), quick=1200))
    out.append(Sub("lifetimes", *lifetimes(), quick=600))
    out.append(Sub("leaks", *leaks(st.sampled_from(sorted(LEAKS))), quick=160, shards=4))
    out.append(Sub("lives", *leaks(LIFE), quick=1400, shards=8))  # whole lives of instances, again and again
    return out
