"""Differential streams: the library against the reference models."""

from hypothesis import strategies as st

from .. import states
from ..common import Drv, Mdl, draws, same, seed_int, uint
from ..core import Sub


def crafted(cfg):
    strat = st.tuples(states.strategy(cfg), st.sampled_from([0, 1, 17, 623]), draws(6, True),
                      st.lists(st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]),
                                         st.integers(1, 3)), min_size=1, max_size=30))

    def body(case, rec):
        desc, pre, ops, tail = case
        bg = cfg.make(1)
        d = states.build(cfg, bg.state, desc)
        bg.state = d
        m = Mdl(cfg.model().load(d))
        drv = Drv(bg)
        if pre:
            same([drv.op("raw", pre)], [m.op("raw", pre)], f"{cfg} skipped outputs")
        for o in list(ops) + list(tail):
            same([drv.op(*o)], [m.op(*o)], f"{cfg} {o}")
        kinds = {k for k, _ in list(ops) + list(tail)}
        if len(kinds) >= 3:
            rec.hit("3+ output kinds")
        # the stored position is the one the model reached
        m2 = Mdl(cfg.model().load(bg.state))
        same([drv.op("raw", 3)], [m2.op("raw", 3)], f"{cfg} state after drawing")

    return lambda: strat, body


def keyed(cfg, make_model):
    strat = st.tuples(uint(cfg.key), uint(cfg.counter) if cfg.counter else st.just(0),
                      draws(8, True))

    def body(case, rec):
        key, counter, ops = case
        bg, m = make_model(cfg, key, counter)
        m = Mdl(m)
        drv = Drv(bg)
        for o in ops:
            same([drv.op(*o)], [m.op(*o)], f"{cfg} key={key:#x} counter={counter:#x} {o}")
        if len(ops) > 1 and (key or counter):
            rec.hit("counter near wrap" if cfg.counter and counter + 700 >= 1 << cfg.counter
                    else "keyed")

    return lambda: strat, body


def seeded(cfg):
    strat = st.tuples(seed_int(), st.integers(0, 700), draws(8, True))

    def body(case, rec):
        seed, skip, ops = case
        bg = cfg.make(seed)
        if skip:
            bg.random_raw(skip)
        m = Mdl(cfg.model().load(bg.state))
        drv = Drv(bg)
        for o in ops:
            same([drv.op(*o)], [m.op(*o)], f"{cfg} {o}")
        if len({k for k, _ in ops}) >= 2 or skip:
            rec.hit("from mid-block" if skip else "from seed")

    return lambda: strat, body


def sub(name, pair, **kw):
    return Sub(name, pair[0], pair[1], **kw)
