"""Seeding: documented construction from a seed sequence, key or counter."""

from hypothesis import strategies as st
import numpy as np
import randomgen as R
from randomgen.seed_sequence import SeedSequence as RSeedSequence

from .. import seeding
from ..common import M64, Drv, Mdl, draws, same, seed_int, uint
from ..common import outputs, PROBE, canon
from ..core import Sub, check
from ..gens import CFGS
from ..models import ctr
from ._ops import SPELLINGS, apply, history, spell

RULE = ("One case: a generator configuration, constructor options, a seed (integer up to 300 bits, a "
        "list of words, a SeedSequence with spawn key, in every accepted spelling) or a key and "
        "counter, and draws compared with the reference model seeded from numpy's SeedSequence; or "
        "a history before re-seeding, compared with a fresh instance. Non-trivial: a seed above 32 "
        "bits or a list or a spawn key, a non-default option, or a non-empty history.")


def seed_spec():
    """(how, value): several spellings of the same entropy."""
    return st.one_of(
        st.tuples(st.just("int"), seed_int()),
        st.tuples(st.just("npint"), uint(64)),
        st.tuples(st.sampled_from(["list", "tuple", "arr32", "arr64"]),
                  st.lists(uint(32), min_size=1, max_size=9)),
        st.tuples(st.just("biglist"), st.lists(uint(80), min_size=1, max_size=4)),
        st.tuples(st.sampled_from(["seq", "rseq"]),
                  st.tuples(seed_int(), st.lists(uint(32), max_size=3))),
        st.tuples(st.just("spawned"), st.tuples(seed_int(), st.integers(0, 5))),
    )


def seed_pair(spec):
    """Object given to the library, numpy SeedSequence of the same entropy."""
    how, v = spec
    S = np.random.SeedSequence
    if how == "int":
        return v, S(v)
    if how == "npint":
        return np.uint64(v), S(v)
    if how in ("list", "biglist"):
        return list(v), S(list(v))
    if how == "tuple":
        return tuple(v), S(list(v))
    if how == "arr32":
        return np.array(v, dtype=np.uint32), S(list(v))
    if how == "arr64":
        return np.array(v, dtype=np.uint64), S([int(x) for x in v])
    if how == "spawned":
        e, i = v
        return S(e).spawn(i + 1)[i], S(e, spawn_key=(i,))
    e, sk = v
    cls = S if how == "seq" else RSeedSequence
    return cls(e, spawn_key=tuple(sk)), S(e, spawn_key=tuple(sk))


def options(cfg):
    """Constructor options to vary beyond the registered configurations."""
    o = {}
    n = cfg.cname
    if n in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        o["inc"] = st.one_of(st.none(), uint(128))
    if n == "LCG128Mix" and "custom" in cfg.name:
        o["multiplier"] = uint(128).map(lambda v: v | 1)
        o["dxsm_multiplier"] = uint(64).map(lambda v: v | 1)
    if n == "PCG32":
        o["inc"] = st.one_of(st.none(), uint(64))
    if n == "LXM":
        o["b"] = uint(64)
    if n == "SFC64" and cfg.name == "SFC64":
        o["w"] = st.one_of(st.none(), uint(64))
        o["k"] = st.one_of(st.none(), uint(64).map(lambda v: v | 1))
    if n == "JSF":
        size = cfg.kwargs.get("size", 64)
        for x in "pqr":
            o[x] = st.one_of(st.none(), st.integers(0 if x == "r" else 1, size - 1))
        o["seed_size"] = st.integers(1, 3)
    if n == "Tyche":
        o["idx"] = st.one_of(st.none(), uint(32))
    if n == "SPECK128":
        o["rounds"] = st.integers(1, 34)
    if n == "ChaCha":
        o["rounds"] = st.integers(1, 16).map(lambda v: 2 * v)
    if cfg.counter:
        o["counter"] = st.one_of(st.none(), uint(cfg.counter))
    return st.fixed_dictionaries({}, optional=o) if o else st.just({})


def kw_norm(cfg, kw):
    return {k: v for k, v in kw.items() if v is not None or k in ("w", "k")}


def fresh(cfg):
    strat = st.tuples(seed_spec(), options(cfg), draws(5, True))

    def body(case, rec):
        spec, kw, ops = case
        obj, seq = seed_pair(spec)
        if cfg.cname == "JSF":
            kw = {**{x: None for x in "pqr"}, **kw}
        bg = cfg.make(obj, **kw)
        m = Mdl(seeding.model(cfg, seq, **kw))
        same(Drv(bg).run(ops), m.run(ops), f"{cfg} seed={spec} {kw}")
        used = bg.seed_seq
        check(np.array_equal(used.generate_state(5, np.uint64), seq.generate_state(5, np.uint64)),
              f"{cfg}: seed_seq is not the sequence that was seeded with")
        if spec[0] not in ("int", "npint") or spec[1] >> 32 or any(v is not None for v in kw.values()):
            rec.hit(spec[0])

    return lambda: strat, body


def seed_kwargs(cfg):
    """Options of the seed method."""
    o = {}
    if cfg.cname in ("PCG64", "PCG64DXSM", "LCG128Mix"):
        o["inc"] = uint(128)
    if cfg.cname == "PCG32":
        o["inc"] = uint(64)
    if cfg.cname == "Tyche":
        o["idx"] = uint(32)
    if cfg.counter:
        o["counter"] = uint(cfg.counter)
    return st.fixed_dictionaries({}, optional=o) if o else st.just({})


def reseed(cfg):
    strat = st.tuples(seed_int(), history(cfg), seed_spec(), seed_kwargs(cfg),
                      st.booleans(), seed_int())

    def body(case, rec):
        s0, ops, spec, kw, again, s2 = case
        a = cfg.make(s0)
        apply(a, ops)
        if again:
            a.seed(s2)
            apply(a, ops[:2])
        a.seed(seed_pair(spec)[0], **kw)
        b = cfg.make(seed_pair(spec)[0], **kw)
        same(outputs(a, PROBE + (("raw", 700),)), outputs(b, PROBE + (("raw", 700),)),
             f"{cfg} re-seeded with {spec} {kw}")
        if ops:
            rec.hit("after " + ops[-1][0])

    return lambda: strat, body


def rekey(cfg):
    """seed(key=, counter=) on a used instance against the reference."""
    strat = st.tuples(seed_int(), history(cfg), uint(cfg.key),
                      uint(cfg.counter) if cfg.counter else st.none(), draws(5))

    def body(case, rec):
        s0, ops, key, counter, dr = case
        if cfg.cname == "Squares":
            key |= 1
        a = cfg.make(s0)
        apply(a, ops)
        kw = {} if counter is None else {"counter": counter}
        a.seed(key=key, **kw)
        m = keyed_model(cfg, key, counter)
        same(Drv(a).run(dr), Mdl(m).run(dr), f"{cfg} seed(key={key:#x}, counter={counter})")
        if ops:
            rec.hit("after " + ops[-1][0])

    return lambda: strat, body


def keyed_model(cfg, key, counter):
    m = cfg.model()
    if cfg.cname == "HC128":
        return m.keyed(key)
    if cfg.cname == "SPECK128":
        return m.keyed(key, counter or 0, cfg.kwargs.get("rounds", 34))
    if cfg.cname == "ChaCha":
        return m.keyed(key, counter or 0, cfg.kwargs["rounds"])
    return m.keyed(key, counter or 0)


def spelled(cfg):
    strat = st.tuples(uint(cfg.key), st.one_of(st.none(), uint(cfg.counter)) if cfg.counter
                      else st.none(), st.sampled_from(SPELLINGS), st.sampled_from(SPELLINGS),
                      st.booleans(), draws(4))

    def body(case, rec):
        key, counter, hk, hc, via_seed, dr = case
        kw = {"key": spell(key, hk, cfg.key)}
        if counter is not None:
            kw["counter"] = spell(counter, hc, cfg.counter)
        before = canon({k: v for k, v in kw.items()})
        if via_seed:
            bg = cfg.make(5)
            bg.random_raw(3)
            bg.seed(**kw)
        else:
            bg = cfg.make(None, **kw)
        check(canon(kw) == before, f"{cfg}: the key or counter passed in was modified")
        same(Drv(bg).run(dr), Mdl(keyed_model(cfg, key, counter)).run(dr),
             f"{cfg} key={key:#x} as {hk}, counter={counter} as {hc}")
        rec.hit(hk)
        if counter is not None:
            rec.label("counter as " + hc)

    return lambda: strat, body


def unseeded(cfg):
    strat = st.tuples(draws(4), st.booleans())

    def body(case, rec):
        dr, via_seed = case
        a = cfg.make(None) if not via_seed else cfg.make(3)
        if via_seed:
            a.seed()
        b = cfg.make(a.seed_seq.entropy)
        oa = outputs(a, dr)
        same(oa, outputs(b, dr), f"{cfg} rebuilt from seed_seq.entropy")
        c = cfg.make(None)
        check(c.seed_seq.entropy != a.seed_seq.entropy, f"{cfg}: two unseeded instances agree")
        rec.hit()

    return lambda: strat, body


def spawned(cfg):
    strat = st.tuples(seed_int(), st.lists(st.integers(1, 3), min_size=1, max_size=3), draws(3))

    def body(case, rec):
        seed, ns, dr = case
        a = cfg.cls(seed)
        ref = np.random.SeedSequence(seed)
        for n in ns:
            kids = a.spawn(n)
            for k, s in zip(kids, ref.spawn(n), strict=True):
                same(outputs(k, dr), outputs(cfg.cls(s), dr), f"{cfg} spawned child")
        if len(ns) > 1:
            rec.hit("several spawns")

    return lambda: strat, body


def mk(name, pair, **kw):
    return Sub(name, pair[0], pair[1], **kw)


HEAVY = ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "AESCounter")


def subs(tier):
    out = []
    seen = set()
    for c in CFGS:
        f = 1 if c.cname in HEAVY else 2
        out.append(mk(f"fresh/{c}", fresh(c), quick=60 * f))
        out.append(mk(f"reseed/{c}", reseed(c), quick=40 * f))
        out.append(mk(f"unseeded/{c}", unseeded(c), quick=6))
        if c.key:
            out.append(mk(f"rekey/{c}", rekey(c), quick=40 * f))
            if c.cname != "Squares":
                out.append(mk(f"spelled/{c}", spelled(c), quick=60 * f))
        if c.cname not in seen:
            seen.add(c.cname)
            out.append(mk(f"spawned/{c.cname}", spawned(c), quick=20))
    return out


__all__ = ["RULE", "subs", "R", "ctr", "M64"]
