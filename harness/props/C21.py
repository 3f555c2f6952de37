"""Squares keys and Weyl increments: the documented shape, and the exact values."""

from math import comb
import warnings

from hypothesis import strategies as st
import numpy as np
from numpy.random.bit_generator import ISeedSequence
from randomgen import SFC64, SeedSequence
from randomgen.squares import generate_keys

from ..common import canon, raises, seed_int, uint, words
from ..core import Sub, check
from ..seeding import KeySampler, valid_key

BUDGET = 10

RULE = ("One case: generate_keys of a seed in any form (also a seed sequence of the test's own, with long "
        "runs of rejected digits or words that repeat) and a number of keys up to 1500, unique or not, against the "
        "key model and the documented digit rules; or weyl_increments of a number and a range of bit "
        "counts from any state of SFC64, against a sampler fed by a twin. Non-trivial: more than one key "
        "or increment.")


class Words(ISeedSequence):
    """A seed sequence whose words are given: prefix, then a pseudo-random tail."""

    def __init__(self, prefix, tail):
        self.prefix, self.tail = prefix, tail

    def generate_state(self, n_words, dtype=np.uint32):
        assert np.dtype(dtype) == np.uint64
        w = self.prefix + words(self.tail, max(0, n_words - len(self.prefix)), 64)
        return np.array(w[:n_words], dtype=np.uint64)


def keys_of(seq, n, unique):
    s, out = KeySampler(seq, 10 * n), []
    while len(out) < n:
        k = s.key()
        if not unique or k not in out:
            out.append(k)
    return out


def spelled(how, seed):
    if how == "seq":
        return SeedSequence(seed)
    if how == "numpy":
        return np.random.SeedSequence(seed)
    if how == "npint" and isinstance(seed, int):
        return np.uint64(seed & (1 << 64) - 1)
    if how == "array" and isinstance(seed, list):
        return np.array(seed, dtype=np.uint64)
    return seed


def verify(got, want, text):
    check(got.dtype == np.uint64 and got.shape == (len(want),), f"{text}: {got.dtype} {got.shape}")
    got = [int(k) for k in got]
    for k in got:
        bad = valid_key(k)
        check(bad is None, f"{text}: key {k:#x} has {bad}")
    check(got == want, f"{text} = {[hex(k) for k in got]}, expected {[hex(k) for k in want]}")


def keys_body(case, rec):
    how, seed, n, unique = case
    arg = spelled(how, seed)
    text = f"generate_keys({how} {seed!r}, {n}, {unique})"
    base = int(arg) if how == "npint" and isinstance(seed, int) else seed
    verify(generate_keys(arg, n, unique), keys_of(np.random.SeedSequence(base), n, unique), text)
    if n > 1:
        rec.hit("unique" if unique else "plain")


def own_body(case, rec):
    blocks, tail, n, unique = case
    prefix = [w for ws, times in blocks for _ in range(times) for w in ws]
    text = f"generate_keys(words {blocks!r}, {n}, {unique})"
    want = keys_of(Words(prefix, tail), n, unique)
    verify(generate_keys(Words(prefix, tail), n, unique), want, text)
    if n > 1 or len(prefix) > 9:
        rec.hit("repeats" if len(set(keys_of(Words(prefix, tail), n, False))) < n else "own words")


class Nested(Words):
    """Words of its own; making them makes keys of another seed, as another thread could meanwhile."""

    def generate_state(self, n_words, dtype=np.uint32):
        generate_keys(self.tail ^ n_words, 1)
        return super().generate_state(n_words, dtype)


def nested_body(case, rec):
    blocks, tail, n, unique = case
    prefix = [w for ws, times in blocks for _ in range(times) for w in ws]
    want = keys_of(Words(prefix, tail), n, unique)
    verify(generate_keys(Nested(prefix, tail), n, unique), want, f"generate_keys(nested words {blocks!r}, {n}, {unique})")
    if len(prefix) > 9:
        rec.hit("nested")


word = st.one_of(uint(64), st.integers(0, 15).map(lambda d: d * 0x1111111111111111))


# ------------------------------------------------------------------ increments
def choose(k):
    return comb(63, k - 1)


WRAPS = range(30, 36)       # bit counts whose number of values the library computes with a wrap-around


def increments(bg, n, top, low):
    """The sampler: bit counts by number of values left, bits by rejection."""
    gen = np.random.Generator(bg)
    left = {b: choose(b) for b in range(low, top + 1)}
    seen, out = set(), []
    for _ in range(n):
        v = int(gen.integers(0, sum(left.values()), dtype=np.uint64))
        for b in left:
            if v < left[b]:
                break
            v -= left[b]
        left[b] -= 1
        while True:
            want = b if b <= 32 else 65 - b
            x, k, buf, cnt = 1, 1, 0, 0
            while k < want:
                if not cnt:
                    buf, cnt = int(bg.random_raw()), 8
                bit, buf, cnt = buf & 63, buf >> 8, cnt - 1
                if not x >> bit & 1:
                    x |= 1 << bit
                    k += 1
            if b > 32:
                x = ~x & (1 << 64) - 1 | 1
            if x not in seen:
                break
        seen.add(x)
        out.append(x)
    return out


@st.composite
def ranges(draw):
    top = draw(st.one_of(st.integers(1, 64), st.sampled_from([1, 2, 3, 62, 63, 64, 29, 36, 32])))
    low = draw(st.one_of(st.just(None), st.integers(1, top), st.integers(max(1, top - 2), top)))
    free = sum(choose(b) for b in range(top if low is None else low, top + 1))
    n = draw(st.one_of(st.integers(1, min(free, 40)), st.integers(1, min(free, 500)),
                       *([st.sampled_from([free, max(1, free - 1), (free + 1) // 2])] if free <= 2100 else [])))
    return top, low, n


states = st.tuples(*[uint(64)] * 5, st.integers(0, 1), uint(32))


def at(state):
    bg = SFC64(0)
    s = bg.state
    a, b, c, w, k, has, u = state
    s["state"].update(zip("abcwk", [a, b, c, w, k | 1]))
    s["has_uint32"], s["uinteger"] = has, u
    bg.state = s
    return bg


def weyl_body(case, rec):
    (top, low, n), state = case
    a, b = at(state), at(state)
    lo = top if low is None else low
    text = f"weyl_increments({n}, {top}, {low}) from {state}"
    free = sum(choose(k) for k in range(lo, top + 1))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        got = a.weyl_increments(n, top, low) if low is not None else a.weyl_increments(n, top)
    check(got.dtype == np.uint64 and got.shape == (n,), f"{text}: {got.dtype} {got.shape}")
    if not any(k in WRAPS for k in range(lo, top + 1)):
        warned = [str(w.message) for w in caught]
        check(bool(warned) == (n >= free / 2 and n > 1), f"{text} of {free}: warnings {warned}")
    vals = [int(v) for v in got]
    check(len(set(vals)) == n, f"{text}: repeated values")
    for v in vals:
        check(v & 1 and lo <= v.bit_count() <= top, f"{text}: {v:#x} is even or has {v.bit_count()} bits set")
    if lo == top or not any(k in WRAPS for k in range(lo, top + 1)):
        want = increments(b, n, top, lo)
        if lo != top or top not in WRAPS:
            check(vals == want, f"{text} = {vals[:8]}, expected {want[:8]}")
            check(canon(a.state) == canon(b.state), f"{text}: leaves another state than the sampler")
    again = at(state)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        check((again.weyl_increments(n, max_bits=top, min_bits=low) == got).all()
              and canon(again.state) == canon(a.state), f"{text} is not a function of the state")
    if n > 1:
        rec.hit("all of them" if n == free else "range" if lo < top else "one bit count")


bad = st.one_of(
    st.tuples(st.sampled_from([0, -1, -(1 << 62)]), st.integers(1, 64), st.none()),
    st.tuples(st.integers(1, 5), st.one_of(st.integers(-99, 0), st.integers(65, 300)), st.none()),
    st.tuples(st.integers(1, 5), st.integers(1, 64), st.one_of(st.integers(-99, 0), st.integers(65, 300))),
    st.integers(1, 63).flatmap(lambda t: st.tuples(st.integers(1, 5), st.just(t), st.integers(t + 1, 64))),
    st.sampled_from([(2, 1, None), (64, 2, None), (65, 2, 1), (1954, 3, None), (2018, 3, 1), (2, 64, None),
                     (64, 63, None), (65, 64, 63), (1 << 62, 5, 1)]))


def bad_body(case, rec):
    (n, top, low), state = case
    bg = at(state)
    before = canon(bg.state)
    raises(ValueError, lambda: bg.weyl_increments(n, top, low), f"weyl_increments({n}, {top}, {low})")
    check(canon(bg.state) == before, f"weyl_increments({n}, {top}, {low}) was rejected and drew values")
    raises(ValueError, lambda: generate_keys(1, min(n, 0)), f"generate_keys(1, {min(n, 0)})")
    rec.hit("rejected")


def subs(tier):
    how = st.sampled_from(["plain", "plain", "seq", "numpy", "npint", "array"])
    seeds = st.one_of(seed_int(), st.lists(uint(64), min_size=1, max_size=5))
    ns = st.one_of(st.integers(1, 6), st.integers(1, 60))
    blocks = st.lists(st.tuples(st.lists(word, min_size=1, max_size=4), st.integers(1, 30)), max_size=4)
    return [
        Sub("keys", lambda: st.tuples(how, seeds, ns, st.booleans()), keys_body, quick=700, shards=2),
        Sub("many keys", lambda: st.tuples(how, seeds, st.integers(61, 1500), st.booleans()), keys_body, quick=12),
        Sub("many increments", lambda: st.tuples(
            st.tuples(st.one_of(st.integers(6, 20), st.integers(45, 60)), st.none(), st.integers(501, 4000)),
            states), weyl_body, quick=12),
        Sub("own words", lambda: st.tuples(blocks, uint(64), st.integers(1, 8), st.booleans()), own_body,
            quick=900, shards=2),
        Sub("nested", lambda: st.tuples(blocks, uint(64), st.integers(1, 8), st.booleans()), nested_body,
            quick=500),
        Sub("increments", lambda: st.tuples(ranges(), states), weyl_body, quick=700, shards=3),
        Sub("rejected", lambda: st.tuples(bad, states), bad_body, quick=600),
    ]
