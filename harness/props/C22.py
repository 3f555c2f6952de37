"""Threads: draws happen under the generator's lock, calls do not interleave, instances are independent."""

import sys
import threading
import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator, RDRAND, UserBitGenerator

from ..common import canon, outputs, seed_int, uint, values, words
from ..core import Sub, check, fail
from ..gens import CFGS

RULE = ("One case: a drawing method of ExtendedGenerator, numpy's Generator or a bit generator with "
        "generated arguments over an instrumented generator (is the lock held at every draw, how often "
        "was it taken), or one such call while another thread holds the lock; or two to four threads "
        "of such calls on one shared generator, whose results must be those of some one-after-the-other "
        "order of the calls; or threads each with generators of their own, against runs alone. Non-trivial: calls drawing several values, or two threads whose "
        "calls really alternate.")


# ------------------------------------------------------------------ operations
def eye(n):
    return np.eye(n) * 2 + 1


def extended(g, name, a):
    n, size, flag = a
    if name == "random":
        return g.random(size, dtype=[np.float64, np.float32, np.longdouble][flag])
    if name == "random out":
        out = np.empty(size or 3, dtype=[np.float64, np.float32, np.float64][flag])
        return g.random(out=out, dtype=out.dtype)
    if name == "uintegers":
        return g.uintegers(size, bits=[32, 64, 64][flag])
    if name == "complex_normal":
        return g.complex_normal(0, 2, 1, size=size)
    if name == "complex_normal array":
        return g.complex_normal(np.arange(n + 1.0), 2, [1] * (n + 1))
    if name == "standard_wishart":
        return g.standard_wishart(n if flag else n + 3, n + 1, size)
    if name == "wishart":
        return g.wishart(n + 3 * flag, eye(n + 1), size)
    if name == "multivariate_normal":
        return g.multivariate_normal(np.zeros(n), eye(n), size)
    if name == "multivariate_complex_normal":
        return g.multivariate_complex_normal(np.zeros(n), eye(n), size=size)
    fail(name)


EXT = ["random", "random out", "uintegers", "complex_normal", "complex_normal array", "standard_wishart",
       "wishart", "multivariate_normal", "multivariate_complex_normal"]


def legacy(g, name, a):
    n, size, flag = a
    if name == "np random":
        return g.random(size)
    if name == "np normal":
        return g.standard_normal(size)
    if name == "np integers":
        return g.integers(0, [1 << 62, 1000, 1 << 63][flag], size=size)
    if name == "np gamma":
        return g.standard_gamma(1.5, size=size)
    if name == "np permutation":
        return g.permutation(n * 7)
    fail(name)


LEG = ["np random", "np normal", "np integers", "np gamma", "np permutation"]


def raw(bg, name, a):
    n, size, flag = a
    if flag == 2:
        return bg.random_raw(size, output=False)
    if name == "raw":
        return bg.random_raw(size)
    fail(name)


def run(bg, op):
    name, a = op
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name in EXT:
            return extended(ExtendedGenerator(bg), name, a)
        if name in LEG:
            return legacy(np.random.Generator(bg), name, a)
        return raw(bg, name, a)


SMALL = st.sampled_from([None, None, 1, 2, 5, (2, 3), (1,), (), 0, 17])
LARGE = st.sampled_from([None, None, 1, 3, 50, 2000, 6000, (20, 300)])
BIG = {"random": 1, "random out": 1, "uintegers": 1, "raw": 1, "np random": 1, "np normal": 1, "complex_normal": 1}


def op(names, sizes, big):
    return st.sampled_from(names).flatmap(lambda k: st.tuples(
        st.just(k), st.tuples(st.integers(1, 4), big if k in BIG else sizes, st.integers(0, 2))))


# ------------------------------------------------------------ draws and the lock
class SpyLock:
    def __init__(self):
        self.lock = threading.Lock()
        self.taken = 0

    def acquire(self, *a, **k):
        self.taken += 1
        return self.lock.acquire(*a, **k)

    def release(self):
        self.lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self.lock.locked()


class Proxy:
    """The bit generator as a Generator sees it, with another lock."""

    def __init__(self, bg, lock):
        self.bg, self.lock, self.capsule = bg, lock, bg.capsule


def spied(seed, bits, kinds, lock_of):
    """A user bit generator over pseudo-random words recording (kind, held, times taken) per draw."""
    log = []
    ws = words(seed, 400, bits)
    pos = [0]

    def word():
        pos[0] += 1
        return ws[pos[0] * 7 % len(ws)] ^ pos[0]

    def make(kind, f):
        def g(voidp):
            lock = lock_of()
            log.append((kind, lock.locked(), getattr(lock, "taken", 0)))
            return f()
        return g

    kw = {}
    if "u64" in kinds:
        kw["next_64"] = make("u64", lambda: word() if bits == 64 else word() << 32 | word())
    if "u32" in kinds:
        kw["next_32"] = make("u32", lambda: word() & 0xFFFFFFFF)
    if "dbl" in kinds:
        kw["next_double"] = make("dbl", lambda: (word() >> bits - 32) / 2.0**32)
    return UserBitGenerator(make("raw", word), bits, **kw), log


def spy_body(case, rec):
    (name, a), seed, bits, kinds, own = case
    hold = [None]
    bg, log = spied(seed, bits, kinds, lambda: hold[0])
    if own or name == "raw":
        hold[0], target = bg.lock, bg
    else:
        hold[0] = SpyLock()
        target = Proxy(bg, hold[0])
    run(target, (name, a))
    text = f"{name}{a} over {bits} bit words"
    outside = [i for i, (_, held, _) in enumerate(log) if not held]
    check(not outside, f"{text}: draws {outside[:5]} of {len(log)} are made without holding the lock")
    check(not hold[0].locked(), f"{text}: the lock is still held after the call")
    if target is not bg:
        spans = {t for _, _, t in log}
        check(len(spans) < 2, f"{text}: the lock is released {len(spans) - 1} times between the draws of one call")
    # a failing call releases the lock too, and the generator goes on
    if len(log) > 1:
        rec.hit("own lock" if own else "proxy lock")


@st.composite
def wish(draw):
    """wishart with array parameters: one locked block per cell."""
    n = draw(st.integers(1, 3))
    dfs = draw(st.lists(st.integers(1, 6), min_size=1, max_size=4))
    rep = draw(st.integers(1, 2))
    reps = draw(st.sampled_from([None, 1, 3]))
    return n, dfs, rep, reps


def cells_body(case, rec):
    (n, dfs, rep, reps), seed = case
    lock = SpyLock()
    bg, log = spied(seed, 64, (), lambda: lock)
    g = ExtendedGenerator(Proxy(bg, lock))
    scale = np.stack([eye(n)] * rep)[:, None]
    lead = (rep, len(dfs))
    g.wishart(dfs, scale, None if reps is None else (reps, *lead))
    check(all(held for _, held, _ in log), "wishart: a draw without the lock")
    spans = {t for _, _, t in log}
    check(len(spans) <= rep * len(dfs), f"wishart of {lead} cells takes the lock {len(spans)} times")
    rec.hit("cells")


# ---------------------------------------------------------------- shared generator
class Numpy:
    """numpy's own bit generators, which the library's generators accept too."""

    def __init__(self, cls):
        self.cls = cls

    def make(self, seed):
        return self.cls(seed)

    def __repr__(self):
        return f"numpy {self.cls.__name__}"


TARGETS = CFGS + [Numpy(c) for c in (np.random.PCG64, np.random.PCG64DXSM, np.random.MT19937,
                                     np.random.Philox, np.random.SFC64)]
try:
    RDRAND()
    WAITING = TARGETS + [Numpy(RDRAND)]
except RuntimeError:
    WAITING = TARGETS


def rdrand_waits(o, rec):
    if o[1][1] == 0:
        return
    bg = RDRAND(retries=1000)
    got = []
    t = threading.Thread(target=lambda: got.append(run(bg, o)), daemon=True)
    with bg.lock:
        t.start()
        t.join(0.03)
        check(not got, f"RDRAND: {o} returned although another thread held the lock")
    t.join(20)
    check(got, f"RDRAND: {o} did not return after the lock was released")
    rec.hit("waited")


def waiting_body(case, rec):
    """While somebody holds the generator's lock, a call waits and draws nothing."""
    who, seed, o = case
    cfg = WAITING[who % len(WAITING)]
    if cfg.cls is RDRAND:
        return rdrand_waits(o, rec)
    twin = cfg.make(seed)
    start = values(twin.state)
    want = run(twin, o)
    end = values(twin.state)
    if end == start:
        return
    bg = cfg.make(seed)
    got = []
    t = threading.Thread(target=lambda: got.append(run(bg, o)), daemon=True)
    with bg.lock:
        t.start()
        t.join(0.03)
        check(not got, f"{cfg}: {o} returned although another thread held the lock")
        check(values(bg.state) == start, f"{cfg}: {o} drew although another thread held the lock")
    t.join(20)
    check(got, f"{cfg}: {o} did not return after the lock was released")
    check(equal(got[0], want) and values(bg.state) == end, f"{cfg}: {o} differs after waiting for the lock")
    rec.hit("waited")


def parallel(jobs):
    """Run each job (a list of thunks) in a thread of its own; results or exceptions."""
    out = [[] for _ in jobs]
    errors = []
    gate = threading.Barrier(len(jobs))

    def work(i):
        gate.wait()
        try:
            for f in jobs[i]:
                out[i].append(f())
        except BaseException as exc:  # noqa: BLE001
            errors.append((i, exc))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, exc in errors:
        fail(f"thread {i} raised {type(exc).__name__}: {exc}")
    return out


def equal(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)   # long doubles have padding


def shared_body(case, rec):
    who, seed, threads = case
    cfg = TARGETS[who % len(TARGETS)]
    bg = cfg.make(seed)
    bg.random_raw(3)
    start = bg.state
    exts = [ExtendedGenerator(bg) for _ in threads]
    legs = [np.random.Generator(bg) for _ in threads]

    def thunk(i, o):
        name, a = o
        if name in EXT:
            return lambda: extended(exts[i], name, a)
        if name in LEG:
            return lambda: legacy(legs[i], name, a)
        return lambda: raw(bg, name, a)

    got = parallel([[thunk(i, o) for o in ops] for i, ops in enumerate(threads)])
    end = values(bg.state)
    twin = cfg.make(0)
    memo = {}

    def search(done, state):
        """Order of the remaining calls that explains all results, or None."""
        if all(d == len(t) for d, t in zip(done, threads)):
            return [] if values(state) == end else None
        # calls of the same set may take differing amounts in differing orders (rejections)
        key = (done, repr(values(state)))
        if key in memo:
            return None
        memo[key] = sum(done)
        for i, ops in enumerate(threads):
            if done[i] == len(ops):
                continue
            twin.state = state
            if equal(run(twin, ops[done[i]]), got[i][done[i]]):
                rest = search(done[:i] + (done[i] + 1,) + done[i + 1:], twin.state)
                if rest is not None:
                    return [i, *rest]
        return None

    order = search((0,) * len(threads), start)
    if order is None:
        deepest = max(memo, key=memo.get)[0]
        fail(f"{cfg}: no order of the calls explains the results; stuck after {deepest} calls of "
             f"{[len(t) for t in threads]}, next {[t[d] for t, d in zip(threads, deepest) if d < len(t)]}")
    switches = sum(a != b for a, b in zip(order, order[1:]))
    if switches >= len(threads):
        rec.hit("alternating")


# ---------------------------------------------------------------- separate generators
def life(cfg, seed, ops):
    """Everything one user does with generators of their own."""
    out = []
    bg = cfg.make(seed)
    for kind, n in ops:
        if kind == "draw":
            out.append(outputs(bg, [("u32", 1), ("raw", n), ("dbl", 2)]))
        elif kind == "big":
            out.append(bg.random_raw(n * 400).tobytes())
        elif kind == "new":
            bg = cfg.make(seed + n)
        elif kind == "seq":
            bg = cfg.make(np.random.SeedSequence(seed).spawn(n % 5 + 1)[-1])
        elif kind == "state":
            s = bg.state
            out.append(values(s))
            bg = cfg.make(1)
            bg.state = s
        elif kind == "jumped" and hasattr(bg, "jumped"):
            bg = bg.jumped(1)
        elif kind == "normal":
            out.append(np.random.Generator(bg).standard_normal(n * 50).tobytes())
        elif kind == "wishart":
            out.append(ExtendedGenerator(bg).wishart([4, 2], eye(3), (n % 7, 2)).tobytes())
    out.append(values(bg.state))
    return out


LIFE = ["draw", "draw", "big", "new", "seq", "state", "jumped", "normal", "wishart"]


def private_body(case, rec):
    users = [(CFGS[w % len(CFGS)], s, ops) for w, s, ops in case]
    got = parallel([[lambda u=u: life(*u)] for u in users])
    for u, g in zip(users, got):
        want = life(*u)
        check(canon(g[0]) == canon(want), f"{u[0]} in a thread of its own gives other values than alone")
    rec.hit(f"{len(users)} threads")


def subs(tier):
    bits = st.sampled_from([64, 64, 32])
    kinds = st.lists(st.sampled_from(["u64", "u32", "dbl"]), max_size=3).map(lambda v: tuple(sorted(set(v))))
    names = EXT + LEG + ["raw"]
    spy = st.tuples(op(names, SMALL, SMALL), uint(32), bits, kinds, st.booleans())
    big = st.sampled_from([None, 1, 3, 2000, 6000, 20000, (20, 300)])
    sized = op(names, SMALL, big)
    threads = st.integers(2, 4).flatmap(lambda k: st.lists(
        st.lists(sized, min_size=3, max_size=8), min_size=k, max_size=k))
    who = st.integers(0, len(CFGS) - 1)
    target = st.one_of(st.integers(0, len(TARGETS) - 1), st.integers(len(CFGS), len(TARGETS) - 1))
    user = st.tuples(who, uint(32), st.lists(st.tuples(st.sampled_from(LIFE), st.integers(1, 20)),
                                             min_size=2, max_size=8))
    users = st.one_of(st.lists(user, min_size=2, max_size=6),
                      st.tuples(user, st.integers(2, 4)).map(
                          lambda v: [(v[0][0], v[0][1] + i, v[0][2]) for i in range(v[1])]))
    return [
        Sub("lock", lambda: spy, spy_body, quick=1200, shards=2),
        Sub("cells", lambda: st.tuples(wish(), uint(32)), cells_body, quick=200),
        Sub("shared", lambda: st.tuples(target, seed_int(), threads), shared_body, quick=1200, shards=4),
        Sub("waiting", lambda: st.one_of(
            st.tuples(target, uint(32), op(names, SMALL, SMALL)),
            st.tuples(target, uint(32), op(names, SMALL, SMALL)),
            st.tuples(st.just(len(WAITING) - 1), uint(32), op(["raw", "raw", *names], SMALL, SMALL)),
            st.tuples(st.just(len(WAITING) - 1), uint(32), op(["raw"], SMALL, SMALL))), waiting_body, quick=150,
            shards=4),
        Sub("private", lambda: users, private_body, quick=700, shards=3),
    ]
