"""jumped(k) and jump(k)."""

import warnings

from hypothesis import strategies as st
import numpy as np

from .. import states
from ..common import Mdl, canon, counts, outputs, own_lock, same, seed_int
from ..core import Sub, check
from ..gens import CFGS
from ..models import jumper
from . import _mix
from ._ops import apply, history

BUDGET = 2

RULE = ("One case: a generator in a state reached by a history or crafted, and one or more jump "
        "counts. Oracles: a reference that moves counters arithmetically and linear generators by "
        "polynomials computed with Berlekamp-Massey, composition of jumps, jump against jumped, and "
        "the untouched original. Non-trivial: a mid-block or pending-half start, a crafted state or "
        "more than one jump.")
ASSUMPTIONS = ["SFMT and DSFMT jump from the end of the current block of outputs, by 2**128 blocks of "
               "128 bits; MT19937 applies the state transition 2**128 times (see KNOWN-FINDING)."]
AFTER = [("raw", 6), ("u32", 3), ("u64", 2), ("dbl", 1), ("raw", 40)]
BUFFERED = {"SFMT": 312, "DSFMT": 382}


def jumpable(c):
    return hasattr(c.cls, "jumped")


def inplace(c):
    return hasattr(c.cls, "jump") and c.cname != "PCG64DXSM"


def start(cfg):
    live = st.tuples(st.just("live"), seed_int(), history(cfg, 4, big=False),
                     st.integers(0, 2), st.integers(0, 9))
    s = states.strategy(cfg)
    if s is None:
        return live
    return st.one_of(live, live, st.tuples(st.just("crafted"), s, st.just([]), st.integers(0, 2),
                                           st.integers(0, 9)))


def make(cfg, spec):
    kind, v, hist, halves, pre = spec
    if kind == "live":
        bg = cfg.make(v)
        apply(bg, hist)
    else:
        bg = cfg.make(1)
        bg.state = states.build(cfg, bg.state, v)
    if pre:
        bg.random_raw(pre)
    if halves:
        apply(bg, [("u32", halves)])
    return bg


def note(rec, spec, k):
    if spec[3] or spec[4]:
        rec.hit("mid-block or pending half")
    if spec[0] == "crafted":
        rec.hit("crafted")
    if k > 1:
        rec.hit("several jumps")


def jump_counts(cfg, top=None):
    if cfg.cname in ("Xoshiro512", "Xorshift1024", "Xoshiro256", "Xoroshiro128", "LXM"):
        return st.one_of(st.integers(1, 3), st.integers(1, 9))
    if cfg.cname in ("MT19937", "SFMT", "DSFMT"):
        return st.integers(1, 3)
    small = st.integers(1, 40)
    if cfg.cname == "Squares":
        return small
    return st.one_of(small, st.integers(1, 1 << 31), st.sampled_from([1 << 32, (1 << 62) + 1]))


def do_jump(bg, k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = bg.jump(k)
    check(r is bg, "jump does not return the generator")


def identity(cfg, a, k, how):
    """jumped leaves the original alone and keeps class, configuration and seed sequence."""
    before = canon(a.state)
    j = a.jumped(k) if how else a.jumped(iter=k) if cfg.cname != "MT19937" else a.jumped(jumps=k)
    check(canon(a.state) == before, f"{cfg}.jumped({k}) changed the original")
    own_lock(a, j, f"{cfg}.jumped({k})")
    check(type(j) is type(a) and j is not a, f"{cfg}.jumped gives {type(j)}")
    sa, sj = a.seed_seq, j.seed_seq
    check(sa.entropy == sj.entropy and sa.spawn_key == sj.spawn_key,
          f"{cfg}.jumped loses the seed sequence")
    n = sa.n_children_spawned
    sj.spawn(1)
    check(sa.n_children_spawned == n, f"{cfg}.jumped: spawning from the new generator changes the original's sequence")
    return j


def vs_model(cfg):
    strat = st.tuples(start(cfg), jump_counts(cfg), st.booleans(), st.booleans())

    def body(case, rec):
        spec, k, how, use_default = case
        if use_default:
            k = 1
        a = make(cfg, spec)
        m = jumper.jump(cfg, cfg.model().load(a.state), k)
        before = canon(a.state)
        j = a.jumped() if use_default else identity(cfg, a, k, how)
        check(canon(a.state) == before, f"{cfg}.jumped changed the original")
        if inplace(cfg):
            do_jump(a, k)
            check(canon(a.state) == canon(j.state), f"{cfg}: jump({k}) and jumped({k}) differ")
        same(outputs(j, AFTER), Mdl(m).run(AFTER), f"{cfg} jumped({k})")
        note(rec, spec, k)

    return lambda: strat, body


def composed(cfg):
    # large counts only where the library does not loop over them
    c = jump_counts(cfg)
    if cfg.cname in ("MT19937", "SFMT", "DSFMT"):
        c = st.integers(1, 20)
    strat = st.tuples(start(cfg), c, c, counts)

    def body(case, rec):
        spec, k1, k2, n = case
        a = make(cfg, spec)
        if k1 + k2 >= 1 << 62:
            k1 >>= 2
            k2 >>= 2
            k1, k2 = max(k1, 1), max(k2, 1)
        b = identity(cfg, identity(cfg, a, k1, True), k2, False)
        c = a.jumped(k1 + k2)
        what = f"{cfg} jumped({k1}).jumped({k2})"
        if cfg.cname == "MT19937":  # the same state up to the place of its start in the array
            x, y = window(b), window(c)
            check(x[1:] == y[1:] and x[0] >> 31 == y[0] >> 31, what)
        else:
            same(outputs(b, AFTER), outputs(c, AFTER), what)
        note(rec, spec, k1 + k2)
        # independence
        d = a.jumped(k1)
        e = a.jumped(k1)
        before = canon(a.state)
        x = outputs(d, [("raw", n)])
        check(canon(a.state) == before, f"{cfg}: a jumped instance shares state with the original")
        outputs(a, [("raw", 3)])
        same(outputs(e, [("raw", n)]), x, f"{cfg}: jumped instances share state")

    return lambda: strat, body


def big_mt(cfg):
    """Jump counts that use the larger steps of the Mersenne-twister family."""
    ks = st.sampled_from([1, 2, 15, 16, 17, 31, 255, 256, 257, 4095, 4096, 4097, 65536, 65537, 69905])
    strat = st.tuples(start(cfg), ks)

    def body(case, rec):
        spec, k = case
        a = make(cfg, spec)
        check_mt(cfg, a, identity(cfg, a, k, True), k)
        note(rec, spec, k)

    return lambda: strat, body


def window(bg):
    t = bg.state["state"]
    p = t["pos"] % 624
    key = [int(v) for v in t["key"]]
    return key[p:] + key[:p]


def check_mt(cfg, a, j, k):
    if cfg.cname == "MT19937":
        s = a.state["state"]
        want = jumper.mt_window(s["key"], s["pos"], k)
        got = window(j)
        check(got[1:] == want[1:] and got[0] >> 31 == want[0] >> 31,
              f"MT19937.jumped({k}): not the state 2**128 * {k} transitions later")
        return
    n = BUFFERED[cfg.cname]
    b = cfg.make(1)
    b.state = a.state
    left = n - b.state["buffer_loc"]  # the rest of the current block is dropped
    if left:
        b.random_raw(left)
    outs = b.random_raw(2 * 20400)
    want = jumper.block_outputs(cfg.cname, outs, k, 200)
    same([[int(v) for v in j.random_raw(400)]], [want], f"{cfg}.jumped({k})")


def small_mt(cfg):
    strat = st.tuples(start(cfg), st.integers(0, 700), st.integers(1, 2), st.booleans())

    def body(case, rec):
        spec, more, k, ip = case
        a = make(cfg, spec)
        if more:
            a.random_raw(more)
        j = identity(cfg, a, k, True)
        if ip:
            b = cfg.make(1)
            b.state = a.state
            do_jump(b, k)
            check(canon(b.state) == canon(j.state), f"{cfg}: jump({k}) and jumped({k}) differ")
        check_mt(cfg, a, j, k)
        rec.hit("mid-block")

    return lambda: strat, body


def subs(tier):
    out = []
    for c in CFGS:
        if not jumpable(c):
            continue
        if c.cname in ("MT19937", "SFMT", "DSFMT"):
            out.append(Sub(f"transition/{c}", *small_mt(c), quick=120, shards=4))
            out.append(Sub(f"large/{c}", *big_mt(c), quick=60, shards=2))
            out.append(Sub(f"composed/{c}", *composed(c), quick=40, shards=2))
        else:
            out.append(Sub(f"model/{c}", *vs_model(c), quick=120))
            out.append(Sub(f"composed/{c}", *composed(c), quick=80))
    out.append(_mix.functions("jumped", "drop", quick=100))
    return out


__all__ = ["RULE", "subs", "np"]
