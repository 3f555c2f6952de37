"""Rejected arguments change nothing and are never silently truncated."""

from hypothesis import strategies as st
import numpy as np
import randomgen as R

from ..common import canon, outputs, PROBE, same, seed_int, uint
from ..core import Sub, check, fail
from ..gens import CFGS
from ._ops import apply, history

BUDGET = 10

RULE = ("One case: a generator after a history and one invalid call - seed, key or counter negative, too "
        "wide, fractional or of a wrong type or shape; seed and key together; a state that is not a "
        "dict, belongs to another class or holds too short arrays; an undocumented constructor option "
        "- which must raise, after which (constructors and short arrays apart) the generator must "
        "continue like a twin that never saw the call. Non-trivial: a non-empty history.")

ERR = (TypeError, ValueError)


class Other:
    def __repr__(self):
        return "object()"


def bad_seed():
    return st.one_of(
        st.integers(1, 1 << 130).map(lambda v: ("lit", -v)),
        st.integers(1, 1 << 60).map(lambda v: ("list", [3, -v])),
        st.floats().map(lambda v: ("lit", v)),
        st.lists(st.floats(-1e9, 1e9), min_size=1, max_size=3).map(lambda v: ("arr", v)),
        st.sampled_from([("lit", "xyz"), ("lit", 1j), ("obj", 0), ("lit", {1: 2}), ("lit", {3, 4}),
                         ("lit", ["a"]), ("lit", [None])]))


def bad_word(bits):
    """Invalid keys or counters of the given width."""
    n = -(-bits // 64)
    return st.one_of(
        uint(bits).map(lambda v: ("lit", -1 - v)),
        uint(bits).map(lambda v: ("lit", (1 << bits) + v)),
        uint(bits + 70).filter(lambda v: v >> bits).map(lambda v: ("lit", v)),
        st.integers(0, 1 << 40).map(lambda v: ("lit", v + 0.5)),
        st.lists(uint(64), min_size=n + 1, max_size=n + 3).filter(
            lambda v: any(v[n:])).map(lambda v: ("u64", v)),
        st.lists(st.floats(0, 1e9), min_size=n, max_size=n).map(
            lambda v: ("arr", v)).filter(lambda v: any(x != int(x) for x in v[1])),
        st.lists(st.integers(-(1 << 62), -1), min_size=n, max_size=n).map(lambda v: ("i64", v)),
        st.sampled_from([("lit", "xyz"), ("lit", []), ("obj", 0), ("lit", {1: 2}),
                         ("lit", float("nan")), ("lit", float("inf")), ("lit", -float("inf")), ("lit", 1j)]),
    )


def build(d):
    how, v = d
    if how == "lit":
        return v
    if how == "arr":
        return np.array(v, dtype=float)
    if how == "u64":
        return np.array(v, dtype=np.uint64)
    if how == "i64":
        return np.array(v, dtype=np.int64)
    if how == "list":
        return list(v)
    return Other()


def used(cfg, seed, hist):
    a, b = cfg.make(seed), cfg.make(seed)
    apply(a, hist)
    apply(b, hist)
    return a, b


def rejected(fn, what, exc=ERR):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        fail(f"{what}: raised {e!r} instead of {exc}")
    fail(f"{what}: accepted")


def unchanged(cfg, a, b, what):
    check(canon(a.state) == canon(b.state), f"{what}: the state changed")
    same(outputs(a, PROBE), outputs(b, PROBE), f"{what}: the stream changed")


def seeding(cfg):
    opts = [st.tuples(st.just("seed"), bad_seed(), st.just(0))]
    if cfg.key:
        opts += [st.tuples(st.just("key"), bad_word(cfg.key), st.integers(0, 1 << 20))] * 2
        if cfg.cname != "Squares":
            opts.append(st.tuples(st.just("both"), uint(cfg.key), st.integers(0, 1 << 20)))
    if cfg.counter:
        opts += [st.tuples(st.just("counter"), bad_word(cfg.counter), uint(cfg.key)),
                 st.tuples(st.just("counter, seed"), bad_word(cfg.counter), st.integers(0, 1 << 70))]
    strat = st.tuples(seed_int(), history(cfg, 3), st.one_of(*opts))

    def body(case, rec):
        seed, hist, (what, bad, other) = case
        if what == "seed":
            args, kw = (build(bad),), {}
        elif what == "key":
            args, kw = (), {"key": build(bad)}
            if cfg.counter and other % 2:
                kw["counter"] = other
        elif what == "counter":
            if cfg.cname == "Squares":
                other |= 1
            args, kw = (), {"key": other, "counter": build(bad)}
        elif what == "both":
            args, kw = (other,), {"key": bad}
        else:
            args, kw = (other,), {"counter": build(bad)}
        text = f"{cfg}({args} {kw})"
        rejected(lambda: cfg.make(*(args or (None,)), **kw), text)
        a, b = used(cfg, seed, hist)
        rejected(lambda: a.seed(*args, **kw), f"{text} seed()")
        unchanged(cfg, a, b, f"{text} seed()")
        if hist:
            rec.hit(what)
        rec.label(what)

    return lambda: strat, body


NOT_DICTS = [None, 3, "state", [1, 2], 2.5, [("state", 1)]]


def states_(cfg):
    others = [i for i, c in enumerate(CFGS) if c.cname != cfg.cname]
    strat = st.tuples(seed_int(), history(cfg, 3), st.one_of(
        st.tuples(st.just("not a dict"), st.integers(0, len(NOT_DICTS) - 1)),
        st.tuples(st.just("foreign"), st.sampled_from(others)),
        st.tuples(st.just("renamed"), st.sampled_from(
            ["", "X", "MT19938", cfg.cname.lower() + "x", "numpy.random." + cfg.cname, None, 5])),
        st.tuples(st.just("short"), st.integers(0, 5))))

    def body(case, rec):
        seed, hist, (what, i) = case
        a, b = used(cfg, seed, hist)
        if what == "not a dict":
            rejected(lambda: setattr(a, "state", NOT_DICTS[i]), f"{cfg}.state = {NOT_DICTS[i]!r}",
                     TypeError)
        elif what == "foreign":
            rejected(lambda: setattr(a, "state", CFGS[i].make(3).state),
                     f"{cfg}.state = state of {CFGS[i]}", ValueError)
        elif what == "renamed":
            s = a.state
            s["bit_generator"] = i
            rejected(lambda: setattr(a, "state", s), f"{cfg}.state named {i!r}", ValueError)
        else:
            s = a.state
            spots = list(arrays(s))
            if not spots:
                return
            d, k = spots[i % len(spots)]
            d[k] = d[k][:len(d[k]) // 2]
            rejected(lambda: setattr(a, "state", s), f"{cfg}.state with a short {k}",
                     (ValueError, IndexError))
            rec.hit(what)
            return
        unchanged(cfg, a, b, f"{cfg}: {what} {i!r}")
        rec.label(what)
        if hist:
            rec.hit()

    return lambda: strat, body


def arrays(s):
    for k, v in s.items():
        if isinstance(v, dict):
            yield from arrays(v)
        elif isinstance(v, np.ndarray) and v.size > 1:
            yield s, k


def option(name, make, strat, exc=ERR):
    def body(case, rec):
        rejected(lambda: make(case), f"{name}: {case!r}", exc)
        rec.hit(name)

    return Sub(f"option/{name}", lambda: strat, body, quick=40)


small = st.integers(-5, 80)


def not_word(bits):
    """Not an integer of that many bits."""
    return st.one_of(
        uint(bits).map(lambda v: -1 - v), uint(bits).map(lambda v: (1 << bits) + v), st.just(1 << bits),
        st.floats().filter(lambda v: not 0 <= v < 2.0**bits or v != int(v)),
        st.integers(0, min(bits - 2, 50)).map(lambda b: 2.0**b + 0.5), st.sampled_from([1j, "3", b"3", [1], {1: 2}]))


def seed_inc(cls, v):
    a, b = cls(3), cls(3)
    a.random_raw(5), b.random_raw(5)
    try:
        a.seed(1, idx=v) if cls is R.Tyche else a.seed(1, v)
    finally:
        unchanged(cls.__name__, a, b, f"seed(1, {v!r})")


def options():
    odd = st.integers(-20, 50)
    yield option("ChaCha rounds", lambda v: R.ChaCha(1, rounds=v),
                 odd.filter(lambda v: v % 2 or v <= 0))
    yield option("SPECK128 rounds", lambda v: R.SPECK128(1, rounds=v),
                 st.one_of(odd.filter(lambda v: not 1 <= v <= 34), st.floats(1, 34).filter(
                     lambda v: v != int(v))))
    for cls in (R.Philox, R.ThreeFry):
        yield option(cls.__name__ + " number", lambda v, c=cls: c(1, number=v),
                     small.filter(lambda v: v not in (2, 4)))
        yield option(cls.__name__ + " width", lambda v, c=cls: c(1, width=v),
                     small.filter(lambda v: v not in (32, 64)))
    for c in sorted({c.cls for c in CFGS}, key=lambda c: c.__name__):
        if "mode" in (c.__doc__ or "").split(")")[0]:
            numpy_too = c.__name__ in ("MT19937", "PCG64", "Philox", "SFC64")
            yield option(f"{c.__name__} mode", lambda v, c=c: c(1, mode=v), st.one_of(
                st.text(max_size=8), st.sampled_from(["legacy", "numpy", "seq", "sequence ", b"sequence"]),
                small, st.none(), st.booleans()).filter(
                    lambda v, n=numpy_too: not (isinstance(v, str) and v.lower() in ("sequence", "numpy")[:1 + n])))
    yield option("Philox numpy", lambda v: R.Philox(1, number=v[0], width=v[1], numpy_seed=True),
                 st.sampled_from([(2, 32), (2, 64), (4, 32)]))
    yield option("JSF size", lambda v: R.JSF(1, size=v), small.filter(lambda v: v not in (32, 64)))
    yield option("JSF seed_size", lambda v: R.JSF(1, seed_size=v),
                 small.filter(lambda v: v not in (1, 2, 3)))
    yield option("JSF pqr", lambda v: R.JSF(1, size=v[0], **{v[1]: v[2]}),
                 st.tuples(st.sampled_from([32, 64]), st.sampled_from("pqr"), small).filter(
                     lambda v: not 0 <= v[2] < v[0]))
    yield option("Romu variant", lambda v: R.Romu(1, variant=v),
                 st.one_of(st.text(max_size=6).filter(lambda v: v.lower() not in ("quad", "trio")), small))
    known = ("xsl-rr", "1.0", "1", "cm-dxsm", "dxsm", "dxsm-128", "2.0", "2", "xslrr", "cmdxsm", "dxsm128")
    yield option("PCG64 variant", lambda v: R.PCG64(1, variant=v), st.one_of(
        st.text(max_size=6).filter(lambda v: v.lower().replace("-", "") not in known),
        st.integers(3, 99), st.floats(3, 9)))
    yield option("PCG64 numpy", lambda v: R.PCG64(1, numpy_seed=True, **v), st.sampled_from(
        [{"variant": "dxsm"}, {"variant": "dxsm-128"}, {"variant": "xsl-rr", "inc": 3}]), ValueError)
    yield option("SFC64 numpy", lambda v: R.SFC64(1, *v, numpy_seed=True),
                 st.tuples(uint(64), uint(64)).filter(lambda v: v != (1, 1)), ValueError)
    yield option("Tyche idx", lambda v: R.Tyche(1, idx=v), not_word(32))
    for cls, bits in ((R.PCG64, 128), (R.PCG64DXSM, 128), (R.LCG128Mix, 128), (R.PCG32, 64)):
        yield option(f"{cls.__name__} inc", lambda v, c=cls: c(1, v), not_word(bits))
        yield option(f"{cls.__name__} seed inc", lambda v, c=cls: seed_inc(c, v), not_word(bits))
    yield option("Tyche seed idx", lambda v: seed_inc(R.Tyche, v), not_word(32))
    yield option("SFC64 w", lambda v: R.SFC64(1, v, 3), not_word(64))
    yield option("SFC64 k", lambda v: R.SFC64(1, None, v), not_word(64))
    yield option("LXM b", lambda v: R.LXM(1, b=v), not_word(64))
    yield option("Squares variant", lambda v: R.Squares(1, variant=v),
                 small.filter(lambda v: v not in (32, 64)), ValueError)
    yield option("Squares key", lambda v: R.Squares(key=v), uint(64).map(lambda v: v & ~1), ValueError)
    yield option("LCG128Mix multiplier", lambda v: R.LCG128Mix(1, multiplier=v), st.one_of(
        uint(128).map(lambda v: v & ~1), uint(128).map(lambda v: (1 << 128) + (v | 1)),
        uint(128).map(lambda v: -v)), ValueError)
    yield option("LCG128Mix dxsm_multiplier", lambda v: R.LCG128Mix(1, dxsm_multiplier=v), st.one_of(
        uint(64).map(lambda v: v & ~1), uint(64).map(lambda v: (1 << 64) + (v | 1)),
        uint(64).map(lambda v: -v)), ValueError)
    yield option("LCG128Mix output", lambda v: R.LCG128Mix(1, output=v), st.one_of(
        st.text(max_size=6).filter(lambda v: v.lower() not in ("xsl-rr", "dxsm", "murmur3", "upper",
                                                               "lower")), small))
    yield option("LCG128Mix post", lambda v: R.LCG128Mix(1, post=v), st.sampled_from([0, 1, None, "x"]))


def subs(tier):
    out = []
    for c in CFGS:
        out.append(Sub(f"seeding/{c}", *seeding(c), quick=60))
        out.append(Sub(f"state/{c}", *states_(c), quick=60))
    return out + list(options())
