"""random_raw: sizes, chunking and skipping."""

from hypothesis import strategies as st
import numpy as np

from .. import states
from ..common import canon, outputs, seed_int, values
from ..core import Sub, check
from ..gens import CFGS
from ._ops import apply, history

BUDGET = 6

RULE = ("One case: a generator in a live or crafted state and a partition of its stream into "
        "random_raw calls - None, integers (0 included), tuples of any rank, lists, output=False - "
        "compared with one single call on a twin, and the final states. Non-trivial: two or more "
        "calls, one of them a tuple or output=False.")

SIZES = st.one_of(
    st.none(), st.integers(0, 20), st.sampled_from([64, 129, 312, 382, 624, 1000]),
    st.lists(st.integers(0, 5), max_size=4).map(tuple), st.lists(st.integers(1, 40), min_size=1, max_size=1).map(tuple),
    st.tuples(st.integers(1, 3), st.integers(20, 120)),
)


def amount(size):
    if size is None:
        return 1
    return int(np.prod(size, dtype=int))


def body_for(cfg):
    def body(case, rec):
        origin, hist, pieces, half = case
        a = cfg.make(1)
        if isinstance(origin, int):
            a = cfg.make(origin)
            apply(a, hist)
        else:
            a.state = states.build(cfg, a.state, origin)
        if half:
            apply(a, [("u32", 1)])
        b = cfg.make(2)
        b.state = a.state
        total = sum(amount(s) for s, _, _ in pieces)
        whole = [int(v) for v in b.random_raw(total)]
        top = 1 << cfg.raw_bits
        check(all(0 <= v < top for v in whole), f"{cfg}: raw value with more than {cfg.raw_bits} bits")
        at = 0
        for size, output, as_list in pieces:
            n = amount(size)
            arg = list(size) if as_list and isinstance(size, tuple) else size
            got = a.random_raw(arg, output) if as_list else a.random_raw(size=arg, output=output)
            if not output:
                check(got is None, f"{cfg}: random_raw(output=False) returned {got!r}")
            elif size is None:
                check(not isinstance(got, np.ndarray) and int(got) == whole[at],
                      f"{cfg}: scalar random_raw {got!r} is not output {at}")
            else:
                shape = (size,) if isinstance(size, int) else size
                check(got.shape == shape and got.dtype == np.uint64,
                      f"{cfg}: random_raw({size}) has shape {got.shape} {got.dtype}")
                check([int(v) for v in got.ravel()] == whole[at:at + n],
                      f"{cfg}: random_raw({size}) at {at} differs from one long call")
            at += n
        check(values(a.state) == values(b.state), f"{cfg}: states differ after {pieces}")
        check(outputs(a, [("u32", 3), ("raw", 3)]) == outputs(b, [("u32", 3), ("raw", 3)]),
              f"{cfg}: futures differ after {pieces}")
        if len(pieces) > 1 and any(isinstance(s, tuple) or not o for s, o, _ in pieces):
            rec.hit("mixed")
        for s, o, _ in pieces:
            rec.label(("skip " if not o else "") + type(s).__name__)

    return body


def strategy(cfg):
    opts = [seed_int()]
    if states.strategy(cfg) is not None:
        opts.append(states.strategy(cfg))
    return st.tuples(st.one_of(*opts), history(cfg, 3),
                     st.lists(st.tuples(SIZES, st.booleans(), st.booleans()), min_size=1, max_size=8),
                     st.booleans())


def bulk(cfg):
    strat = st.tuples(seed_int(), st.sampled_from(["", "u32"]), st.lists(
        st.tuples(st.one_of(st.integers(1, 5000), st.sampled_from([65535, 65536, 65537, 1 << 17])),
                  st.booleans()), min_size=1, max_size=4))

    def body(case, rec):
        seed, before, pieces = case
        a, b = cfg.make(seed), cfg.make(seed)
        if before:
            apply(a, [("u32", 1)])
            apply(b, [("u32", 1)])
        total = sum(n for n, _ in pieces)
        whole = b.random_raw(total)
        at = 0
        for n, output in pieces:
            got = a.random_raw(n, output)
            if output:
                bad = np.nonzero(got != whole[at:at + n])[0]
                check(not len(bad), lambda: f"{cfg}: {len(bad)} of {n} values in bulk from {at} differ from one call, "
                      f"the first at {bad[0]}")
            at += n
        check(values(a.state) == values(b.state), f"{cfg}: states differ after {pieces}")
        # and value by value, around where blocks of any size could end
        c = cfg.make(seed)
        if before:
            apply(c, [("u32", 1)])
        pos = 0
        for mark in (0, 4096, 65534, 131070):
            if mark + 4 > total:
                break
            c.random_raw(mark - pos, False)
            got = [int(c.random_raw()) for _ in range(4)]
            pos = mark + 4
            check(got == [int(v) for v in whole[mark:pos]],
                  f"{cfg}: values {mark}..{pos} of one call of {total} differ from single calls")
        if total > 65536:
            rec.hit("bulk")

    return lambda: strat, body


def subs(tier):
    out = [Sub(str(c), lambda c=c: strategy(c), body_for(c), quick=120) for c in CFGS]
    return out + [Sub(f"bulk/{c}", *bulk(c), quick=12) for c in CFGS]


__all__ = ["RULE", "subs", "canon"]
