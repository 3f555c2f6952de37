"""Instances do not influence each other."""

from concurrent.futures import ThreadPoolExecutor
import gc
import sys
import threading

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from ..common import canon, outputs, own_lock, same, seed_int, uint, values
from ..core import Sub, check
from ..gens import CFGS
from ._ops import apply, history

BUDGET = 1

RULE = ("One case: up to five live generators - of one class, or of random classes - and an interleaved "
        "schedule of draws, advances, jumps, state reads and assignments, re-seedings, and creation "
        "and destruction of further instances; each generator must give what it gives when it runs its "
        "own operations alone. Non-trivial: the operations of at least two generators alternate.")


def step():
    return st.tuples(st.integers(0, 4), st.one_of(
        st.tuples(st.sampled_from(["u32", "u64", "dbl", "raw"]), st.sampled_from([1, 1, 2, 3, 5, 17])),
        st.tuples(st.sampled_from(["u32", "u64", "dbl", "raw"]), st.sampled_from([1, 1, 2, 3, 5, 17])),
        st.tuples(st.just("state"), st.just(0)), st.tuples(st.just("put"), st.just(0)),
        st.tuples(st.just("seed"), uint(64)), st.tuples(st.just("new"), st.integers(0, 999)),
        st.tuples(st.just("move"), st.integers(1, 9)), st.tuples(st.just("gc"), st.just(0))))


def perform(cfg, bg, op, extra):
    kind, n = op
    if kind in ("u32", "u64", "dbl", "raw"):
        return outputs(bg, [(kind, n)])
    if kind == "state":
        return values(bg.state)
    if kind == "put":
        bg.state = bg.state
        return None
    if kind == "seed":
        bg.seed(n)
        return None
    if kind == "move":
        if cfg.adv:
            bg.advance(n)
        elif cfg.cname not in ("MT19937", "SFMT", "DSFMT", "Squares"):
            apply(bg, [("raw", n)])
        return None
    if kind == "new":
        extra.append((cfg.make(n), n))
        outputs(extra[-1][0], [("u32", 1), ("raw", 3)])
    elif kind == "gc":
        del extra[:]
        gc.collect()
    return None


def body_for(pick):
    def body(case, rec):
        who, seeds, steps = case
        cfgs = [pick(w) for w in who]
        live = [c.make(s) for c, s in zip(cfgs, seeds)]
        extra = []
        got = [[] for _ in live]
        order = []
        for w, op in steps:
            w %= len(live)
            order.append(w)
            got[w].append(perform(cfgs[w], live[w], op, extra))
        final = [values(b.state) for b in live]
        for a, b in zip(live, live[1:]):
            own_lock(a, b, f"{cfgs}")
        for i, c in enumerate(cfgs):
            alone = c.make(seeds[i])
            for j, (op, g) in enumerate(zip([o for w, o in steps if w % len(live) == i], got[i])):
                h = perform(c, alone, op, [])
                check(g == h, f"{c} #{i}: operation {j} {op} gave {g}, alone {h}")
            check(values(alone.state) == final[i], f"{c} #{i}: final state differs from a run alone")
        if sum(a != b for a, b in zip(order, order[1:])) > 1:
            rec.hit(f"{len(live)} instances")

    return body


def strategy(n):
    return st.integers(2, 5).flatmap(lambda k: st.tuples(
        st.lists(st.integers(0, n - 1), min_size=k, max_size=k),
        st.lists(seed_int(), min_size=k, max_size=k), st.lists(step(), min_size=4, max_size=24)))


def shared_seq(cfg):
    """Generators built from one SeedSequence object, and from arrays the caller then overwrites."""
    strat = st.tuples(seed_int(), history(cfg, 3), st.booleans())

    def body(case, rec):
        seed, hist, spawn = case
        seq = np.random.SeedSequence(seed)
        a, b = cfg.make(seq), cfg.make(seq)
        apply(a, hist)
        if spawn:
            seq.spawn(2)
        c = cfg.make(seq)
        d = cfg.make(np.random.SeedSequence(seed))
        want = outputs(d, [("u32", 3), ("raw", 20)])
        for x, name in ((b, "second"), (c, "third")):
            same(outputs(x, [("u32", 3), ("raw", 20)]), want, f"{cfg}: {name} instance of one seed sequence")
        # a state dict is a snapshot: neither later draws nor the caller's edits pass through
        s = a.state
        before = canon(s)
        outputs(a, [("raw", 5), ("u32", 1)])
        check(canon(s) == before, f"{cfg}: a captured state changed with later draws")
        e, f = cfg.make(0), cfg.make(0)
        e.state = s
        f.state = s
        scribble(s)
        same(outputs(e, [("u32", 3), ("raw", 700)]), outputs(f, [("u32", 3), ("raw", 700)]),
             f"{cfg}: two instances of one state")
        g, h = cfg.make(7), cfg.make(7)
        t = g.state
        scribble(t)
        same(outputs(g, [("u32", 3), ("raw", 700)]), outputs(h, [("u32", 3), ("raw", 700)]),
             f"{cfg}: editing a state dict changed the generator")
        if hist:
            rec.hit("history")

    return lambda: strat, body


def scribble(s):
    for k, v in s.items():
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = v.dtype.type(1)


BULK = {
    "raw": lambda bg, g, n: bg.random_raw(n),
    "u32": lambda bg, g, n: g.uintegers(n, bits=32),
    "u64": lambda bg, g, n: g.uintegers(n, bits=64),
    "dbl": lambda bg, g, n: g.random(n),
    "flt": lambda bg, g, n: g.random(n, dtype=np.float32),
    "long": lambda bg, g, n: g.random(n, dtype=np.longdouble),
    "cpx": lambda bg, g, n: g.complex_normal(1j, 2.0, 0.5j, size=n),
    "wish": lambda bg, g, n: g.standard_wishart(5, 3, size=n // 16),
    "pois": lambda bg, g, n: np.random.Generator(bg).poisson(3.5, size=n // 4),
}


def parallel(pick, n):
    """One instance per thread, all drawing at the same time with the GIL released."""
    strat = st.integers(2, 4).flatmap(lambda k: st.tuples(
        st.lists(st.tuples(st.integers(0, n - 1), seed_int(), st.lists(
            st.tuples(st.sampled_from(sorted(BULK) + ["raw", "u32", "u64", "dbl"]),
                      st.sampled_from([1, 7, 20000, 60000, 60001])),
            min_size=1, max_size=4)), min_size=k, max_size=k), st.booleans()))

    def run(cfg, seed, ops, make, go=None):
        bg = None if make else cfg.make(seed)
        if go is not None:
            go.wait()
        if make:
            bg = cfg.make(seed)
        g = ExtendedGenerator(bg)
        return [BULK[k](bg, g, m) for k, m in ops], values(bg.state)

    def body(case, rec):
        plans, make = case
        args = [(pick(w), seed, ops, make) for w, seed, ops in plans]
        alone = [run(*a) for a in args]
        go = threading.Barrier(len(args))
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            with ThreadPoolExecutor(len(args)) as ex:
                got = list(ex.map(lambda a: run(*a, go), args))
        finally:
            sys.setswitchinterval(old)
        for i, (a, b, c) in enumerate(zip(alone, got, args)):
            for op, x, y in zip(c[2], a[0], b[0]):
                check(np.array_equal(x, y), lambda: f"{c[0]} in thread {i}: {op} differs from a run alone "
                      f"in {int(np.sum(x != y))} of {np.size(x)} values")
            check(a[1] == b[1], f"{c[0]} in thread {i}: final state differs from a run alone")
        if sum(any(m >= 20000 for _, m in p[2]) for p in plans) >= 2:
            rec.hit(f"{len(plans)} threads")

    return lambda: strat, body


def subs(tier):
    out = [Sub("mixed", lambda: strategy(len(CFGS)), body_for(lambda w: CFGS[w]), quick=1600, shards=8)]
    for c in CFGS:
        out.append(Sub(f"same/{c}", lambda: strategy(1), body_for(lambda w, c=c: c), quick=80))
        out.append(Sub(f"shared/{c}", *shared_seq(c), quick=40))
        out.append(Sub(f"parallel/{c}", *parallel(lambda w, c=c: c, 1), quick=40))
    out.append(Sub("parallel", *parallel(lambda w: CFGS[w], len(CFGS)), quick=320, shards=8))
    return out
