"""randomgen's own SeedSequence against numpy's."""

from hypothesis import strategies as st
import numpy as np
from numpy.random import SeedSequence as Ref
from randomgen._seed_sequence import SeedlessSeedSequence, SeedSequence

from ..common import seed_int, uint, words
from ..core import Sub, check, fail

BUDGET = 6

RULE = ("One case: entropy (integer up to 300 bits, a nested sequence, an array of any integer type, "
        "decimal and hexadecimal strings), spawn key, pool size and number of children already "
        "spawned (thousands of words and hundreds of children in the large cases), and a history of generate_state, spawn (recursively), pickle and rebuilding from "
        "state, each compared with numpy's SeedSequence (strings converted first). Non-trivial: "
        "entropy beyond the pool, a spawn key, or a history with spawns.")

key = st.lists(st.one_of(uint(32), uint(70)), max_size=6)
item = st.one_of(uint(32), uint(64), uint(100))
spelled = st.one_of(
    seed_int().map(lambda v: ("int", v)),
    uint(64).map(lambda v: ("npint", v)),
    st.lists(item, max_size=12).map(lambda v: ("list", v)),
    st.lists(st.one_of(item, st.lists(item, max_size=3)), max_size=6).map(lambda v: ("nested", v)),
    st.lists(uint(32), max_size=12).map(lambda v: ("u32", v)),
    st.lists(uint(63), max_size=9).map(lambda v: ("i64", v)),
    st.lists(uint(64), max_size=9).map(lambda v: ("u64", v)),
    st.lists(uint(8), max_size=9).map(lambda v: ("u8", v)),
    seed_int().map(lambda v: ("dec", v)), seed_int().map(lambda v: ("hex", v)),
    st.lists(item, min_size=1, max_size=5).map(lambda v: ("strs", v)),
    st.integers(0, 9).map(lambda v: ("range", v)),
)


def entropy(spec):
    """(for randomgen, for numpy)"""
    how, v = spec
    if how == "int":
        return v, v
    if how == "npint":
        return np.uint64(v), v
    if how in ("list", "nested"):
        return list(v), list(v)
    if how in ("u8", "u32", "u64", "i64"):
        dt = {"u8": np.uint8, "u32": np.uint32, "u64": np.uint64, "i64": np.int64}[how]
        return np.array(v, dtype=dt), np.array(v, dtype=dt)
    if how == "dec":
        return str(v), v
    if how == "hex":
        return hex(v), v
    if how == "strs":
        return [str(x) if i % 2 else hex(x) for i, x in enumerate(v)], list(v)
    return range(v), list(range(v))


ops = st.lists(st.one_of(
    st.tuples(st.just("gen"), st.integers(0, 40), st.sampled_from(["uint32", "uint64"])),
    st.tuples(st.just("gen"), st.integers(0, 700), st.sampled_from(["uint32", "uint64"])),
    st.tuples(st.just("spawn"), st.integers(0, 4), st.integers(0, 3)),
    st.tuples(st.just("spawn"), st.integers(0, 4), st.integers(0, 3)),
    st.tuples(st.just("rebuild"), st.just(0), st.just(0)),
), min_size=1, max_size=10)


def same_state(a, b, n, dt, what):
    x, y = a.generate_state(n, np.dtype(dt)), b.generate_state(n, np.dtype(dt))
    check(x.dtype == y.dtype and x.shape == y.shape and (x == y).all(),
          f"{what}.generate_state({n}, {dt}) = {x[:8]}, numpy gives {y[:8]}")
    x = a.generate_state(n, dt)
    check(x.shape == y.shape and (x == y).all(), f"{what}.generate_state({n}, '{dt}')")


def body(case, rec):
    spec, k, pool, spawned, todo = case
    mine, theirs = entropy(spec)
    kw = {"spawn_key": tuple(k), "pool_size": pool, "n_children_spawned": spawned}
    a, b = SeedSequence(mine, **kw), Ref(theirs, **kw)
    live = [(a, b)]
    same_state(a, b, 9, "uint32", f"{spec} {kw}")
    check((np.asarray(a.pool) == np.asarray(b.pool)).all(), f"{spec} {kw}: pools differ")
    nspawn = 0
    for op, n, m in todo:
        i = (n + nspawn) % len(live)
        a, b = live[i]
        what = f"{spec} {kw} -> #{i} {a.spawn_key}"
        if op == "gen":
            same_state(a, b, n, m, what)
        elif op == "spawn":
            ca, cb = a.spawn(n), b.spawn(n)
            check(len(ca) == len(cb) == n, f"{what}.spawn({n}) gave {len(ca)}")
            check(a.n_children_spawned == b.n_children_spawned, f"{what}: children counted wrongly")
            for x, y in zip(ca, cb):
                check(type(x) is SeedSequence and x.spawn_key == y.spawn_key
                      and x.pool_size == y.pool_size, f"{what}: child {x!r}, numpy {y!r}")
                same_state(x, y, 5, "uint64", f"{what}: child {x.spawn_key}")
            live += list(zip(ca, cb))[:m]
            nspawn += n
        else:
            s, t = a.state, b.state
            check({k for k in s} == {k for k in t}, f"{what}: state has {set(s)}")
            check(s["spawn_key"] == t["spawn_key"] and s["pool_size"] == t["pool_size"]
                  and s["n_children_spawned"] == t["n_children_spawned"], f"{what}: state {s}")
            live[i] = (SeedSequence(**s), b)
            same_state(live[i][0], b, 6, "uint32", f"{what} rebuilt from state")
    if k or nspawn or len(np.asarray(b.pool)) > 4 or spec[0] not in ("int", "npint"):
        rec.hit(spec[0])


def strategy():
    return st.tuples(spelled, key, st.sampled_from([4, 4, 4, 5, 8, 16]), st.sampled_from([0, 0, 1, 7]), ops)


def large():
    """Thousands of words of entropy, state and children, past any inner buffer."""
    many = st.one_of(st.integers(13, 3000), st.sampled_from([16, 17, 255, 256, 257, 1023, 1024, 1025, 4097]))
    size = st.one_of(st.integers(701, 20000), st.sampled_from([1023, 1024, 4096, 4097, 65536, 65537, 200_001]))
    spec = st.one_of(
        st.tuples(st.sampled_from([("u32", 32), ("u64", 64), ("list", 100), ("dec", 0), ("hex", 0), ("int", 0),
                                   ("u8", 8), ("nested", 64)]), many, uint(32)).map(huge), spelled)
    todo = st.lists(st.one_of(
        st.tuples(st.just("gen"), size, st.sampled_from(["uint32", "uint64"])),
        st.tuples(st.just("spawn"), st.integers(5, 600), st.integers(0, 3)),
        st.tuples(st.just("rebuild"), st.just(0), st.just(0))), min_size=1, max_size=4)
    return st.tuples(spec, st.one_of(key, st.integers(7, 300).map(lambda n: list(range(n, 0, -1)))),
                     st.sampled_from([4, 4, 8, 33, 100, 512]), st.sampled_from([0, 1000, 2**32 - 10**4]), todo)


def huge(t):
    (how, bits), n, seed = t
    if not bits:    # digits of one integer, within what Python converts from decimal
        return how, int.from_bytes(np.array(words(seed, min(n, 400), 32), dtype=np.uint32).tobytes(), "little") | 1
    v = words(seed, n, bits)
    return how, v if how != "nested" else [v[:n // 2], *v[n // 2:]]


def distinct():
    """Children of one sequence, at any depth, are pairwise different; siblings of later spawns too."""
    strat = st.tuples(seed_int(), st.lists(st.integers(1, 4), min_size=1, max_size=4))

    def check_distinct(case, rec):
        seed, counts = case
        root = SeedSequence(seed)
        allseq = [root]
        level = [root]
        for n in counts:
            nxt = []
            for s in level[:3]:
                nxt += s.spawn(n)
            allseq += nxt
            level = nxt
        keys = [s.spawn_key for s in allseq]
        check(len(set(keys)) == len(keys), f"{seed} {counts}: repeated spawn keys {keys}")
        pools = {tuple(s.generate_state(4)) for s in allseq}
        check(len(pools) == len(allseq), f"{seed} {counts}: children with equal states")
        rec.hit("tree")

    return lambda: strat, check_distinct


def invalid():
    strat = st.one_of(
        st.integers(1, 1 << 80).map(lambda v: ("entropy", -v)),
        st.floats(allow_nan=False).map(lambda v: ("entropy", v)),
        st.lists(st.integers(0, 9), min_size=1, max_size=4).map(lambda v: ("entropy", [-1, *v])),
        st.sampled_from([("entropy", "zz"), ("entropy", ""), ("entropy", {1: 2}), ("entropy", [1.5])]),
        st.integers(-3, 3).map(lambda v: ("pool", v)),
        st.sampled_from([("dtype", "int64"), ("dtype", "uint8"), ("dtype", "float64")]))

    def reject(case, rec):
        what, v = case
        try:
            if what == "entropy":
                SeedSequence(v)
            elif what == "pool":
                SeedSequence(1, pool_size=v)
            else:
                SeedSequence(1).generate_state(3, v)
        except (TypeError, ValueError):
            rec.hit(what)
            return
        fail(f"SeedSequence accepted {what} {v!r}")

    return lambda: strat, reject


def strings():
    """Accepted exactly when numpy accepts them inside a sequence, as the same entropy."""
    digits = st.text("0123456789", min_size=1, max_size=40)
    hexa = st.text("0123456789abcdefABCDEF", min_size=1, max_size=40)
    text = st.one_of(
        st.text("0123456789abfxXbBoO_+-. \n\u0663", max_size=6), digits, hexa, hexa.map(lambda v: "0x" + v),
        st.builds(str.__add__, st.sampled_from(["0X", "0b", "0o", "+", "-", " ", "x", "0x-", "0x ", "0x0x", "#"]), hexa),
        st.builds(str.__add__, st.one_of(digits, hexa.map(lambda v: "0x" + v)),
                  st.sampled_from([" ", "g", ".", ".0", "_", "_1", "L", "e3", "\n", ",", "-1"])))
    strat = st.tuples(text, st.sampled_from(["alone", "list", "nested", "key"]))

    def body(case, rec):
        v, where = case
        how = {"alone": lambda c: c(v if c is SeedSequence else [v]), "list": lambda c: c([3, v]), "nested": lambda c: c([1, [v, "7"]]),
               "key": lambda c: c(5, spawn_key=(v,))}[where]
        got, want = [], []
        for c, out in ((SeedSequence, got), (Ref, want)):
            try:
                out.append(how(c).generate_state(6).tolist())
            except (TypeError, ValueError):
                out.append("rejected")
        check(got == want, f"string {v!r} ({where}): {got} instead of {want}")
        rec.hit("rejected" if want == ["rejected"] else "accepted")

    return lambda: strat, body


def none_entropy():
    strat = st.tuples(st.sampled_from([4, 8]), st.integers(0, 3))

    def body(case, rec):
        pool, n = case
        a = SeedSequence(pool_size=pool)
        a.spawn(n)
        b = Ref(a.entropy, pool_size=pool)
        same_state(a, b, 20, "uint64", "system entropy")
        check(0 <= a.entropy < 1 << 32 * pool, "entropy out of range")
        check(SeedSequence(pool_size=pool).entropy != a.entropy, "two system entropies are equal")
        seedless = SeedlessSeedSequence()
        check(seedless.spawn(n) == [seedless] * n, "seedless spawn")
        rec.hit()

    return lambda: strat, body


def subs(tier):
    return [Sub("model", strategy, body, quick=6000, shards=6), Sub("large", large, body, quick=30, shards=2), Sub("distinct", *distinct(), quick=500),
            Sub("invalid", *invalid(), quick=400), Sub("strings", *strings(), quick=500),
            Sub("none", *none_entropy(), quick=60)]

