"""Pickling and copying bit generators."""

import copy
import pickle

from hypothesis import strategies as st
import numpy as np

from .. import states
from ..common import canon, draws, outputs, own_lock, same, seed_int, uint, values
from ..core import Sub, check
from ..gens import CFGS
from . import _mix
from ._ops import apply, history

BUDGET = 6

RULE = ("One case: a generator (random seed sequence, history of draws, advances and jumps, or a "
        "crafted legal state), copied by pickle (every protocol), copy.copy or copy.deepcopy; the "
        "copy must have the class, state, seed sequence and future of the original and be "
        "independent of it. Non-trivial: a non-empty history or a crafted state.")

HOW = tuple(range(pickle.HIGHEST_PROTOCOL + 1)) + ("copy", "deepcopy")


def dup(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=how))


def compare(a, how, ops, cfg, rec, twice):
    frozen = canon(a.state)
    b = dup(a, how)
    check(canon(a.state) == frozen, f"{cfg}: {how} changed the original")
    if twice is not None:
        b = dup(b, twice)
    check(type(b) is type(a) and b is not a, f"{cfg}: {how} gives {type(b)}")
    check(canon(b.state) == frozen, f"{cfg}: state differs after {how}")
    own_lock(a, b, f"{cfg}: {how}")
    ea, eb = a.seed_seq, b.seed_seq
    check(np.array_equal(ea.generate_state(6), eb.generate_state(6))
          and ea.entropy == eb.entropy and tuple(ea.spawn_key) == tuple(eb.spawn_key),
          f"{cfg}: seed sequence differs after {how}")
    check(ea.n_children_spawned == eb.n_children_spawned, f"{cfg}: spawned count lost by {how}")
    out_b = outputs(b, ops)
    check(canon(a.state) == frozen, f"{cfg}: drawing from the copy ({how}) changed the original")
    after = canon(b.state)
    out_a = outputs(a, ops)
    check(canon(b.state) == after, f"{cfg}: drawing from the original changed the copy ({how})")
    same(out_a, out_b, f"{cfg} after {how}")
    check(values(a.state) == values(b.state), f"{cfg}: states diverge after {how}")
    if how != "copy" and twice != "copy":  # a shallow copy shares the sequence, as numpy's does
        n = ea.n_children_spawned
        eb.spawn(1)
        check(ea.n_children_spawned == n, f"{cfg}: {how} shares the seed sequence")
    rec.label(str(how))


def live(cfg):
    strat = st.tuples(seed_int(), st.lists(uint(32), max_size=2), st.integers(0, 3),
                      history(cfg, 6), st.sampled_from(HOW),
                      st.one_of(st.none(), st.sampled_from(HOW)), draws(5, True))

    def body(case, rec):
        seed, sk, nspawn, hist, how, twice, ops = case
        a = cfg.make(np.random.SeedSequence(seed, spawn_key=tuple(sk)))
        if nspawn:
            a.seed_seq.spawn(nspawn)
        apply(a, hist)
        compare(a, how, list(ops) + [("raw", 40)], cfg, rec, twice)
        if hist:
            rec.hit()

    return lambda: strat, body


def crafted(cfg):
    strat = st.tuples(states.strategy(cfg), st.sampled_from(HOW), draws(5, True))

    def body(case, rec):
        desc, how, ops = case
        a = cfg.make(1)
        a.state = states.build(cfg, a.state, desc)
        compare(a, how, list(ops), cfg, rec, None)
        rec.hit("crafted")

    return lambda: strat, body


def subs(tier):
    out = []
    for c in CFGS:
        heavy = c.cname in ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "EFIIX64")
        n = 60 if heavy else 120
        out.append(Sub(f"live/{c}", *live(c), quick=n))
        if states.strategy(c) is not None:
            out.append(Sub(f"crafted/{c}", *crafted(c), quick=n // 2))
    out.append(_mix.functions("copy", "state", "drop", quick=100))
    return out
