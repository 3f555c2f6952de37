"""advance(delta)."""

from hypothesis import strategies as st

from .. import states
from ..common import Mdl, counts, delta, outputs, same, seed_int
from ..core import Sub, check
from ..gens import CFGS
from . import _mix
from ._ops import apply, history

RULE = ("One case: a generator in a state reached by a history or crafted (counters next to a wrap), "
        "and one or several advance steps - small, boundary-biased over the whole counter width, "
        "negative, or beyond the period. Oracles: the same number of discarded raw outputs, the "
        "reference model moved arithmetically, additivity, inversion and periodicity. Non-trivial: "
        "a pending half word or mid-block start, a step beyond 64 bits, or a negative step.")

SMALL = st.one_of(st.integers(0, 70), st.sampled_from([127, 128, 255, 256, 257, 623, 1000, 1023]))
AFTER = [("raw", 5), ("u32", 3), ("u64", 2), ("dbl", 1), ("raw", 12)]
# Squares takes an unsigned 64-bit step; the others wrap any integer
R123 = ("Philox", "ThreeFry")


def steps(cfg):
    if cfg.cname == "Squares":
        return st.one_of(st.integers(0, (1 << 64) - 1), st.integers(0, 50).map(lambda v: (1 << 64) - 1 - v),
                         st.integers(0, 50))
    return delta(cfg.adv)


def start(cfg):
    s = states.strategy(cfg)
    live = st.tuples(st.just("live"), seed_int(), history(cfg, 4, big=False),
                     st.integers(0, 2), st.integers(0, 9))
    if s is None:
        return live
    return st.one_of(live, live, st.tuples(st.just("crafted"), s, st.just([]), st.integers(0, 2),
                                           st.integers(0, 9)))


def make(cfg, spec):
    kind, v, hist, halves, pre = spec
    if kind == "live":
        bg = cfg.make(v)
        apply(bg, hist)
    else:
        bg = cfg.make(1)
        bg.state = states.build(cfg, bg.state, v)
    if pre:
        bg.random_raw(pre)
    apply(bg, [("u32", halves)] if halves else [])
    return bg


def twin(cfg, bg, clear=False):
    b = cfg.make(2)
    b.state = bg.state
    if clear and "has_uint32" in bg.state:
        s = bg.state
        s["has_uint32"], s["uinteger"] = 0, 0
        b.state = s
    return b


def adv(cfg, bg, d):
    """Steps counted in outputs (the default of Philox and ThreeFry counts blocks)."""
    return bg.advance(d, False) if cfg.cname in R123 else bg.advance(d)


def note(rec, spec, d, cfg):
    if spec[3] or spec[4]:
        rec.hit("mid-block or pending half")
    if d < 0:
        rec.hit("negative")
    if abs(d) >> 64:
        rec.hit("beyond 64 bits")


def small(cfg):
    strat = st.tuples(start(cfg), SMALL)

    def body(case, rec):
        spec, n = case
        a = make(cfg, spec)
        b = twin(cfg, a, clear=n > 0)
        r = adv(cfg, a, n)
        check(r is a, f"{cfg}.advance does not return the generator")
        if cfg.name == "Squares32":  # steps are 32-bit outputs
            outputs(b, [("u32", n)])
        else:
            b.random_raw(n, output=False)
        after = AFTER if n else [("raw", 20)]
        same(outputs(a, after), outputs(b, after), f"{cfg} advance({n}) against {n} draws")
        note(rec, spec, n, cfg)

    return lambda: strat, body


def vs_model(cfg):
    strat = st.tuples(start(cfg), st.lists(st.tuples(steps(cfg), st.integers(0, 3)), min_size=1,
                                           max_size=3))

    def body(case, rec):
        spec, ds = case
        a = make(cfg, spec)
        m = Mdl(cfg.model().load(a.state))
        after = AFTER
        for d, draw in ds:
            adv(cfg, a, d)
            move(cfg, m.m, d)
            if d % (1 << cfg.adv) == 0:
                after = [("raw", 20)]
            if draw:
                o = [("raw", draw)]
                same(outputs(a, o), m.run(o), f"{cfg} after advance({d})")
            note(rec, spec, d, cfg)
        same(outputs(a, after), m.run(after), f"{cfg} after advances {ds}")

    return lambda: strat, body


def move(cfg, m, d):
    if cfg.cname in R123:
        m.advance_words(d)
    elif hasattr(m, "advance"):
        m.advance(d)
    else:
        m.jump(d % (1 << cfg.adv))


def laws(cfg):
    strat = st.tuples(start(cfg), steps(cfg), steps(cfg), st.integers(-3, 3), counts)

    def body(case, rec):
        spec, d1, d2, wraps, n = case
        a = make(cfg, spec)
        b = twin(cfg, a)
        c = twin(cfg, a)
        raw = [("raw", n + 8)]
        if cfg.cname == "Squares":
            a.advance(d1).advance(d2)
            b.advance((d1 + d2) % (1 << 64))
            same(outputs(a, raw), outputs(b, raw), f"{cfg} advance({d1}) advance({d2})")
            note(rec, spec, d1, cfg)
            return
        adv(cfg, adv(cfg, a, d1), d2)
        adv(cfg, b, d1 + d2)
        same(outputs(a, raw), outputs(b, raw), f"{cfg} advance({d1}).advance({d2})")
        d = twin(cfg, c)
        adv(cfg, d, d1)
        d.random_raw(n)
        adv(cfg, d, -d1 - n)
        e = twin(cfg, c)
        adv(cfg, e, d1 + wraps * (1 << cfg.adv))
        adv(cfg, e, -d1)
        ref = outputs(c, raw)
        same(outputs(d, raw), ref, f"{cfg} advance({d1}), {n} draws, advance({-d1 - n})")
        same(outputs(e, raw), ref, f"{cfg} advance({d1} + {wraps} periods), advance({-d1})")
        note(rec, spec, d1, cfg)

    return lambda: strat, body


def counter_steps(cfg):
    strat = st.tuples(start(cfg), delta(cfg.counter), st.booleans())

    def body(case, rec):
        spec, d, explicit = case
        a = make(cfg, spec)
        m = Mdl(cfg.model().load(a.state))
        if explicit:
            a.advance(d, False)
            move(cfg, m.m, d)
            if d % (1 << cfg.adv) == 0:
                m.m.has = 0
                return
        else:
            default = d % 2 == 0  # counter steps are the default
            if default:
                a.advance(d)
            else:
                a.advance(d, counter=True)
            if d == 0:
                return
            m.m.advance_counter(d)
        same(outputs(a, AFTER), m.run(AFTER), f"{cfg} advance({d}, {not explicit})")
        note(rec, spec, d, cfg)

    return lambda: strat, body


def subs(tier):
    out = []
    for c in CFGS:
        if not c.adv:
            continue
        f = 1 if c.cname in ("AESCounter",) else 2
        out.append(Sub(f"small/{c}", *small(c), quick=80 * f))
        out.append(Sub(f"model/{c}", *vs_model(c), quick=100 * f))
        out.append(Sub(f"laws/{c}", *laws(c), quick=100 * f))
        if c.cname in R123:
            out.append(Sub(f"counter/{c}", *counter_steps(c), quick=150))
    out.append(_mix.functions("advance", quick=100))
    return out
