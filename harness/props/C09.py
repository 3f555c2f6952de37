"""Hardware-accelerated and portable implementations are interchangeable at any moment."""

from hypothesis import strategies as st

from .. import states
from ..common import Drv, Mdl, delta, same, seed_int, uint
from ..core import Sub, check
from ..gens import CFGS

BUDGET = 10

RULE = ("One case: AESCounter, SPECK128 or ChaCha from a key and counter, a seed or a crafted state, "
        "and a history of draws, advances, state round trips and switches of the accelerated "
        "implementation, every output compared with the reference model, which has one "
        "implementation only. Non-trivial: at least one switch between two draws.")
FLAG = {"AESCounter": "use_aesni", "SPECK128": "use_sse41", "ChaCha": "use_simd"}
counts = st.sampled_from([1, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31, 33, 64, 65])


def ops(cfg):
    kinds = [st.tuples(st.sampled_from(["raw", "u32", "u64", "dbl"]), counts)] * 3
    kinds += [st.tuples(st.just("flag"), st.booleans())] * 2
    kinds.append(st.tuples(st.just("roundtrip"), st.just(0)))
    kinds.append(st.tuples(st.just("reseed"), uint(128)))
    if cfg.adv:
        kinds.append(st.tuples(st.just("advance"), delta(cfg.adv)))
    return st.lists(st.one_of(*kinds), min_size=2, max_size=14)


def body_for(cfg):
    flag = FLAG[cfg.cname]

    def body(case, rec):
        first, origin, ops_ = case
        probe = cfg.make(0)
        capable = available(probe, flag)
        try:
            set_flag(probe, flag, first, capable)
            bg, m = begin(cfg, origin)
            drv, mdl = Drv(bg), Mdl(m)
            # creating or seeding an instance may re-detect the CPU features
            now, switched = bool(getattr(bg, flag)), 0
            drawn = False
            for o, n in ops_:
                if o == "flag":
                    new = n and capable
                    if new != now and drawn:
                        switched += 1
                    now = new
                    set_flag(bg, flag, n, capable)
                    check(bool(getattr(bg, flag)) == now, f"{cfg}.{flag} is not what was set")
                elif o == "roundtrip":
                    s = bg.state
                    bg = cfg.make(9)
                    bg.state = s
                    drv = Drv(bg)
                    now = bool(getattr(bg, flag))
                elif o == "reseed":
                    bg.seed(key=n, counter=n ^ 3)
                    mdl = Mdl(keyed(cfg, n, n ^ 3))
                    now = bool(getattr(bg, flag))
                elif o == "advance":
                    if n % (1 << cfg.adv):
                        bg.advance(n)
                        mdl.m.advance(n)
                else:
                    same([drv.op(o, n)], [mdl.op(o, n)], f"{cfg} {o} with {flag}={now}")
                    drawn = True
            same([drv.op("raw", 40)], [mdl.op("raw", 40)], f"{cfg} with {flag}={now}")
            if switched:
                rec.hit("switched" + (" twice or more" if switched > 1 else ""))
        finally:
            if capable:
                setattr(probe, flag, True)

    return body


def available(bg, flag):
    try:
        setattr(bg, flag, True)
    except ValueError:
        return False
    return True


def set_flag(bg, flag, value, capable):
    if value and not capable:
        return
    setattr(bg, flag, value)


def keyed(cfg, key, counter):
    m = cfg.model()
    if cfg.cname == "SPECK128":
        return m.keyed(key, counter, cfg.kwargs.get("rounds", 34))
    if cfg.cname == "ChaCha":
        return m.keyed(key, counter, cfg.kwargs["rounds"])
    return m.keyed(key, counter)


def begin(cfg, origin):
    kind, a, b = origin
    if kind == "key":
        return cfg.make(None, key=a, counter=b), keyed(cfg, a, b)
    if kind == "seed":
        bg = cfg.make(a)
    else:
        bg = cfg.make(1)
        bg.state = states.build(cfg, bg.state, a)
    return bg, cfg.model().load(bg.state)


def strategy(cfg):
    opts = [st.tuples(st.just("key"), uint(cfg.key), uint(cfg.counter))] * 2
    opts.append(st.tuples(st.just("seed"), seed_int(), st.none()))
    if states.strategy(cfg) is not None:
        opts.append(st.tuples(st.just("crafted"), states.strategy(cfg), st.none()))
    return st.tuples(st.booleans(), st.one_of(*opts), ops(cfg))


def subs(tier):
    return [Sub(str(c), lambda c=c: strategy(c), body_for(c), quick=500, shards=2)
            for c in CFGS if c.cname in FLAG]
