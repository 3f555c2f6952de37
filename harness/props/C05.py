"""State capture and restore."""

import copy
import json
import pickle

from hypothesis import strategies as st
import numpy as np

from .. import states
from ..common import canon, draws, outputs, same, seed_int, values
from ..core import Sub, check
from ..gens import CFGS
from . import _mix
from ._ops import apply, history

BUDGET = 6

RULE = ("One case: a generator after a history of draws, advances and jumps (or in a crafted legal "
        "state), its state dict in one of several equivalent spellings, and a target instance of the "
        "same class - possibly with another configuration, seed and history - which must continue "
        "with exactly the outputs of the original. Non-trivial: a history on both sides, or a "
        "differently configured target, or a crafted state.")

FORMS = ("same", "same", "short", "lists", "strided", "backwards", "readonly", "pickle", "deepcopy", "json", "reordered",
         "early", "early")
# what states did not name before there was a choice
LATER = {"PCG64": {"variant": "1.0"}, "Xoroshiro128": {"plusplus": False},
         "Philox": {"number": 4, "width": 64}, "ThreeFry": {"number": 4, "width": 64}}


def reform(s, form):
    def walk(x, f):
        if isinstance(x, dict):
            return {k: walk(v, f) for k, v in x.items()}
        return f(x)

    arr = lambda f: (lambda x: f(x) if isinstance(x, np.ndarray) else x)  # noqa: E731
    if form == "short":
        return {**s, "bit_generator": s["bit_generator"].split(".")[-1]}
    if form == "lists":
        return walk(s, arr(lambda x: x.tolist()))
    if form == "strided":
        return walk(s, arr(lambda x: np.repeat(x, 2)[::2]))
    if form == "backwards":
        return walk(s, arr(lambda x: np.array(x[::-1])[::-1]))
    if form == "early":
        later = LATER.get(s["bit_generator"].split(".")[-1], {})
        if all(s[k] == v for k, v in later.items()):
            return {k: v for k, v in s.items() if k not in later}
    if form == "readonly":
        def ro(x):
            y = x.copy()
            y.flags.writeable = False
            return y
        return walk(s, arr(ro))
    if form == "pickle":
        return pickle.loads(pickle.dumps(s))
    if form == "deepcopy":
        return copy.deepcopy(s)
    if form == "json":
        def enc(x):
            if isinstance(x, np.ndarray):
                return x.tolist()
            if isinstance(x, np.generic):
                return x.item()
            return x
        return json.loads(json.dumps(walk(s, enc)))
    if form == "reordered":
        def rev(x):
            return {k: rev(v) for k, v in reversed(list(x.items()))} if isinstance(x, dict) else x
        return rev(s)
    return s


def siblings(cfg):
    return [c.name for c in CFGS if c.cname == cfg.cname]


BYN = {c.name: c for c in CFGS}
AFTER = (("u32", 1), ("raw", 3), ("u32", 1), ("dbl", 1))


def restore(a, cfg, tcfg, tseed, thist, form, ops, rec):
    s = a.state
    frozen = canon(s)
    check(canon(a.state) == frozen, f"{cfg}: reading the state twice differs")
    given = reform(s, form)
    given_frozen = canon(given)
    b = tcfg.make(tseed)
    apply(b, thist)
    b.state = given
    check(canon(given) == given_frozen, f"{cfg}: the setter modified the dict it was given")
    check(values(b.state) == values(s), f"{cfg} -> {tcfg} ({form}): state read back differs")
    oa = outputs(a, ops)
    check(canon(s) == frozen and canon(given) == given_frozen,
          f"{cfg}: a captured state changed when the generator was used")
    ob = outputs(b, ops)
    same(oa, ob, f"{cfg} restored into {tcfg} ({form})")
    check(canon(s) == frozen and canon(given) == given_frozen,
          f"{cfg}: a captured state changed when the restored generator was used")
    check(values(a.state) == values(b.state), f"{cfg} -> {tcfg}: states diverge after {ops}")
    # rewind in place
    a.state = given
    same(outputs(a, ops), ob, f"{cfg} rewound in place ({form})")
    rec.label(form)


def live(cfg):
    strat = st.tuples(seed_int(), history(cfg, 8), st.sampled_from(siblings(cfg)), seed_int(),
                      history(cfg, 4), st.sampled_from(FORMS), draws(6, True))

    def body(case, rec):
        seed, hist, tname, tseed, thist, form, ops = case
        tcfg = BYN[tname]
        # the target's own history must only use what it offers
        thist = [o for o in thist if o[0] not in ("advance", "jump")]
        a = cfg.make(seed)
        apply(a, hist)
        restore(a, cfg, tcfg, tseed, thist, form, list(ops) + [("raw", 30)] + list(AFTER), rec)
        if hist and (thist or tname != cfg.name):
            rec.hit("other configuration" if tname != cfg.name else "used target")

    return lambda: strat, body


def crafted(cfg):
    strat = st.tuples(states.strategy(cfg), history(cfg, 3), st.sampled_from(FORMS), draws(5, True),
                      st.one_of(st.just(cfg.name), st.sampled_from(siblings(cfg))), st.integers(0, 3))

    def body(case, rec):
        desc, thist, form, ops, tname, tseed = case
        thist = thist if tname == cfg.name else [o for o in thist if o[0] not in ("advance", "jump")]
        a = cfg.make(1)
        d = states.build(cfg, a.state, desc)
        a.state = d
        got = a.state
        check(values(got) == values(d), f"{cfg}: crafted state read back differs")
        restore(a, cfg, BYN[tname], tseed, thist, form, list(ops), rec)
        rec.hit("crafted")

    return lambda: strat, body


def mk(name, pair, **kw):
    return Sub(name, pair[0], pair[1], **kw)


def subs(tier):
    out = []
    for c in CFGS:
        heavy = c.cname in ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "EFIIX64")
        n = 60 if heavy else 120
        out.append(mk(f"live/{c}", live(c), quick=n))
        if states.strategy(c) is not None:
            out.append(mk(f"crafted/{c}", crafted(c), quick=n // 2))
    out.append(_mix.functions("state", "keep", "restore", "drop", quick=150))
    return out
