"""Entropy: random_entropy under faults, and seed_by_array against its model."""

import contextlib
import ctypes
import errno
import math
import os
import platform
import resource
import signal
import time
import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen.entropy import random_entropy, seed_by_array

from .. import native
from ..common import M64, uint, words as drawn
from ..core import Sub, check, fail

BUDGET = 6

RULE = ("One case: seed_by_array of a seed (integer, list, tuple, array of any integer, float or object "
        "type and layout, up to 65537 words) and a length against the SplitMix64 model; an invalid seed; or "
        "random_entropy of a size and source, undisturbed, with every read interrupted by signals, over a "
        "stand-in for the system source whose reads are short, interrupted or failing as a plan says (a build of the "
        "module of its own), or with the system source failing to open or to be read. Non-trivial: a seed of several words, or a size of "
        "several values.")


# ------------------------------------------------------------- seed_by_array
def model(seed, n):
    x, out, loc = 0, [0] * n, 0
    for i in range(max(n, len(seed))):
        if i < len(seed):
            x ^= seed[i]
        x = (x + 0x9E3779B97F4A7C15) & M64
        z = x
        z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M64
        z = (z ^ z >> 27) * 0x94D049BB133111EB & M64
        out[loc] = z ^ z >> 31
        loc = (loc + 1) % n
    return out


def words(bits):
    return st.lists(uint(bits), min_size=1, max_size=12)


seeds = st.one_of(
    uint(64).map(lambda v: ("int", v)), uint(64).map(lambda v: ("npint", v)),
    uint(53).map(lambda v: ("float", v)),
    words(64).map(lambda v: ("list", v)), words(64).map(lambda v: ("tuple", v)),
    words(64).map(lambda v: ("u64", v)), words(63).map(lambda v: ("i64", v)),
    words(32).map(lambda v: ("u32", v)), words(8).map(lambda v: ("u8", v)),
    words(53).map(lambda v: ("f64", v)), words(64).map(lambda v: ("object", v)),
    words(64).map(lambda v: ("strided", v)), words(64).map(lambda v: ("row", v)),
    words(64).map(lambda v: ("column", v)),
    words(64).map(lambda v: ("nplist", v)),
)


many = st.tuples(st.sampled_from(["list", "tuple", "u64", "i64", "u32", "f64", "object", "strided", "row"]),
                 st.one_of(st.integers(13, 5000), st.sampled_from([16, 64, 256, 1024, 65537])), uint(32)).map(
    lambda t: (t[0], drawn(t[2], t[1], {"i64": 63, "u32": 32, "f64": 53}.get(t[0], 64))))


def spell(how, v):
    if how in ("int", "list"):
        return v
    if how == "npint":
        return np.uint64(v)
    if how == "float":
        return float(v)
    if how == "tuple":
        return tuple(v)
    if how == "nplist":
        return [np.uint64(x) for x in v]
    if how == "strided":
        a = np.zeros((len(v), 2), dtype=np.uint64)
        a[:, 1] = v
        return a[:, 1]
    if how in ("row", "column"):
        return np.array(v, dtype=np.uint64).reshape((1, -1) if how == "row" else (-1, 1))
    t = {"u64": np.uint64, "i64": np.int64, "u32": np.uint32, "u8": np.uint8, "f64": float,
         "object": object}[how]
    return np.array(v, dtype=t)


def by_array(case, rec):
    (how, v), n = case
    given = spell(how, v)
    before = repr(given)
    got = seed_by_array(given, n)
    want = model(v if isinstance(v, list) else [v], n)
    check(got.dtype == np.uint64 and got.shape == (n,), f"seed_by_array: {got.dtype} {got.shape}")
    check(got.tolist() == want, f"seed_by_array({how} {v}, {n}) = {got.tolist()}, expected {want}")
    check(repr(given) == before, "seed_by_array changed its argument")
    if how not in ("int", "npint", "float"):
        rec.hit(how)
    rec.label(how)


bad_seeds = st.one_of(
    st.integers(1, 1 << 70).map(lambda v: ("lit", -v)),
    st.integers(1, 1 << 70).map(lambda v: ("lit", M64 + v)),
    st.floats(0, 1e15).filter(lambda v: v != int(v)).map(lambda v: ("lit", v)),
    st.tuples(words(64), st.integers(1, 99), st.integers(0, 99)).map(
        lambda t: ("lit", t[0][:t[2] % len(t[0])] + [-t[1]] + t[0])),
    st.tuples(words(64), st.integers(1, 99), st.integers(0, 99)).map(
        lambda t: ("lit", t[0][:t[2] % len(t[0])] + [M64 + t[1]] + t[0])),
    st.tuples(words(40), st.integers(0, 99)).map(lambda t: ("arr", [*t[0], t[1] + .5, 1.0])),
    st.tuples(words(40), st.integers(2, 4)).map(lambda t: ("2d", [t[0] * 2] * t[1])),
    st.sampled_from([("lit", "x"), ("lit", None), ("lit", 1j), ("lit", [1, "a"]), ("lit", [1, 2j]),
                     ("lit", [1, None]), ("lit", {}), ("lit", float("nan"))]),
)


def bad(case, rec):
    (how, v), n = case
    given = v if how == "lit" else np.array(v)
    try:
        got = seed_by_array(given, n)
    except (TypeError, ValueError):
        rec.hit(how)
        return
    fail(f"seed_by_array({how} {v}, {n}) accepted: {got}")


# ------------------------------------------------------------- random_entropy
dim = st.sampled_from([0, 1, 1, 2, 3, 5, 17])
sizes = st.one_of(st.none(), st.integers(0, 40), st.sampled_from([257, 1000, 5000, 16_385, 70_001]),
                  st.lists(dim, max_size=3).map(tuple))
sources = st.sampled_from(["system", "system", "auto", "fallback"])


def shaped(x, size, what):
    if size is None:
        check(type(x) is int and 0 <= x < 1 << 32, f"{what} = {x!r}")
        return np.array([x], dtype=np.uint32)
    want = size if isinstance(size, tuple) else (int(size),)
    check(isinstance(x, np.ndarray) and x.dtype == np.uint32 and x.shape == want,
          f"{what}: {type(x)} {getattr(x, 'dtype', '')} {getattr(x, 'shape', '')}")
    return x.ravel()


def filled(draw, size, what):
    """System entropy: every word is filled, and no call repeats another."""
    xs = [shaped(draw(), size, what) for _ in range(4)]
    if xs[0].size == 0:
        return
    every, some = np.bitwise_or.reduce(xs), np.bitwise_and.reduce(xs)
    check(every.all(), f"{what}: word {int(np.argmin(every != 0))} is 0 in four calls")
    check((some != 0xFFFFFFFF).all(), f"{what}: a word is 2**32-1 in four calls")
    check(not all((x == xs[0]).all() for x in xs), f"{what}: four equal calls")
    if xs[0].size >= 8:
        check(not any((a == b).all() for i, a in enumerate(xs) for b in xs[:i]), f"{what}: equal calls")
        check(len(np.unique(np.concatenate(xs))) > 2 * xs[0].size, f"{what}: words repeat")
    if xs[0].size >= 64:
        x = np.concatenate(xs)
        check(np.bitwise_or.reduce(x) == 0xFFFFFFFF and np.bitwise_and.reduce(x) == 0,
              f"{what}: a bit never changes")


LIBC = ctypes.CDLL(None)


def fds():
    return len(os.listdir("/proc/self/fd"))


def entropy(case, rec):
    size, source, numpy_int = case
    if numpy_int and isinstance(size, int):
        size = np.int64(size)
    what = f"random_entropy({size!r}, {source!r})"
    n = fds()
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        if source == "fallback":
            x = shaped(random_entropy(size, source), size, what)
            if x.size:
                for _ in range(60):
                    time.sleep(2e-4)
                    if (shaped(random_entropy(size, source), size, what) != x).any():
                        break
                else:
                    fail(f"{what}: unchanged over time")
        else:
            filled(lambda: random_entropy(size, source), size, what)
    check(fds() == n, f"{what} leaves a descriptor open")
    if size is not None and np.prod(size) > 1:
        rec.hit(source)


@contextlib.contextmanager
def ticking(ms):
    """SIGUSR1 every ms milliseconds, also in the middle of a system call (as ITIMER_PROF does not,
    and ITIMER_REAL is in use)."""
    event = (ctypes.c_int * 16)(0, 0, signal.SIGUSR1, 0)
    timer = ctypes.c_void_p()
    check(LIBC.timer_create(1, event, ctypes.byref(timer)) == 0, "timer_create")
    every = (ctypes.c_long * 4)(0, int(ms * 1e6), 0, int(ms * 1e6))
    try:
        LIBC.timer_settime(timer, 0, every, None)
        yield
    finally:
        LIBC.timer_delete(timer)
        time.sleep(0)


def interrupted(case, rec):
    size, source, ms = case
    # large arrays are always new, zeroed pages: no earlier array's words are left in them
    LIBC.mallopt(-3, 1 << 17)  # M_MMAP_THRESHOLD
    what = f"random_entropy({size}, {source!r}) interrupted by signals"
    hits = []
    old = signal.signal(signal.SIGUSR1, lambda *a: hits.append(1))
    n = fds()
    try:
        with warnings.catch_warnings(), ticking(ms):
            warnings.simplefilter("error")
            got = [random_entropy(size, source) for _ in range(3)]
    finally:
        signal.signal(signal.SIGUSR1, old)
    for x in got:
        x = shaped(x, size, what)
        for part in (x[-4:], x[-2000:], x[:4]):
            check(part.any(), f"{what}: not filled")
        # no page is left untouched
        pages = x[:x.size // 1024 * 1024].reshape(-1, 1024)
        check(pages.any(axis=1).all(), f"{what}: a page is not filled")
    check(fds() == n, f"{what} leaves a descriptor open")
    if hits:
        rec.hit("interrupted")


def unavailable(case, rec):
    size, source, tries = case
    what = f"random_entropy({size}, {source!r}) without descriptors"
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    out = []
    n = fds()
    resource.setrlimit(resource.RLIMIT_NOFILE, (0, hard))
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            for _ in range(tries):
                try:
                    out.append(random_entropy(size, source))
                except RuntimeError as e:
                    out.append(e)
    finally:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
    check(fds() == n, f"{what} leaves a descriptor open")
    warned = [w for w in caught if issubclass(w.category, RuntimeWarning)]
    empty = size is not None and math.prod(size if isinstance(size, tuple) else (size,)) == 0
    for x in out:
        if empty:
            shaped(x, size, what)
        elif source == "system":
            check(isinstance(x, RuntimeError), f"{what} returned {x!r}")
        else:
            check(not isinstance(x, RuntimeError), f"{what} raised {x!r}")
            shaped(x, size, what)
    if not empty:
        check(len(warned) == (tries if source == "auto" else 0), f"{what}: {len(warned)} warnings")
        rec.hit(source)
    # and it recovers
    shaped(random_entropy(size, "system"), size, what)


class Rule(ctypes.Structure):
    _fields_ = [("code", ctypes.c_uint16), ("jt", ctypes.c_uint8), ("jf", ctypes.c_uint8), ("k", ctypes.c_uint32)]


class Program(ctypes.Structure):
    _fields_ = [("len", ctypes.c_uint16), ("rules", ctypes.POINTER(Rule))]


CALLS = {"read": [0], "open": [2, 257]}  # x86-64


def failing(name, number):
    """From here on the system call fails in this process (number 0: reads meet the end of the file)"""
    calls = CALLS[name]
    rules = [Rule(0x20, 0, 0, 0)]  # load the number of the call
    rules += [Rule(0x15, len(calls) - i, 0, c) for i, c in enumerate(calls)]
    rules += [Rule(0x06, 0, 0, 0x7FFF0000), Rule(0x06, 0, 0, 0x00050000 | number)]
    array = (Rule * len(rules))(*rules)
    return (LIBC.prctl(38, 1, 0, 0, 0) == 0
            and LIBC.prctl(22, 2, ctypes.byref(Program(len(rules), array)), 0, 0) == 0)


def live():
    """Descriptors in use, without opening one"""
    n = 0
    for i in range(1024):
        try:
            os.fstat(i)
            n += 1
        except OSError:
            pass
    return n


def faulty(case, rec):
    """In a process of its own where the system source opens but cannot be read, or does not open"""
    (name, number), size, source, tries = case
    what = f"random_entropy({size}, {source!r}) while {name} fails ({number})"
    if platform.machine() != "x86_64":
        return
    out, into = os.pipe()
    child = os.fork()
    if child == 0:
        answer = b"?"
        signal.setitimer(signal.ITIMER_REAL, 20)  # milliseconds are usual: no end is a failure
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                n = live()
                if not failing(name, number):
                    answer = b"-"
                else:
                    answer = b""
                    for _ in range(tries):
                        before = len(caught)
                        try:
                            shaped(random_entropy(size, source), size, what)
                            answer += b"w" if len(caught) > before else b"v"
                        except RuntimeError:
                            answer += b"e"
                    answer += b"" if live() == n else b"o"
        except BaseException as e:
            answer = repr(e)[:200].encode()
        finally:
            os.write(into, answer)
            os._exit(0)
    os.close(into)
    with os.fdopen(out, "rb") as f:
        got = f.read().decode()
    status = os.waitpid(child, 0)[1]
    check(status == 0, f"{what} ends the process: {status}")
    if got == "-":
        return
    check(not got.endswith("o"), f"{what} leaves a descriptor open")
    empty = size is not None and math.prod(size if isinstance(size, tuple) else (size,)) == 0
    want = "v" if empty else {"system": "e", "auto": "w", "fallback": "v"}[source]
    check(got == want * tries, f"{what}: {got} instead of {want * tries}")
    rec.hit(f"{name} {source}")


# ------------------------------------------------------ a scripted source
READS = st.one_of(
    st.just([]), st.lists(st.one_of(st.integers(1, 9), st.sampled_from([13, 16, 255, 256, 257, 4096]),
                                    st.just(-errno.EINTR)), max_size=12),
    st.lists(st.one_of(st.integers(1, 9), st.just(-errno.EINTR), st.just(-errno.EINTR)), max_size=60),
    st.lists(st.one_of(st.integers(1, 9), st.sampled_from(
        [0, -errno.EINTR, -errno.EIO, -errno.EAGAIN, -errno.EBADF, 300])), max_size=8))


def scripted(case, rec):
    """Over reads that give what a plan says: short, interrupted and failing ones in any order"""
    size, source, plans = case
    draw, play, given, reads = STAND_IN
    n = fds()
    for k, plan in enumerate(plans):
        what = f"random_entropy({size}, {source!r}) over reads of {plan}, after {plans[:k]}"
        play(plan)
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            try:
                x = shaped(draw(size, source), size, what)
            except RuntimeError:
                x = None
        did = reads()
        fault = any(r <= 0 and r != -errno.EINTR for r in plan[:did])
        warned = any(issubclass(w.category, RuntimeWarning) for w in caught)
        check(fds() == n, f"{what} leaves a descriptor open")
        if x is None:
            check(fault and source == "system", f"{what} raised")
        elif warned:
            check(fault and source == "auto", f"{what} warned")
        elif source != "fallback":
            got = x.tobytes()
            check(given()[:len(got)] == got, f"{what}: not the bytes that were read")
        if did > 1 and source != "fallback":
            rec.hit("failed" if fault else "completed")


def bad_entropy(case, rec):
    size, source = case
    try:
        x = random_entropy(size, source)
    except (TypeError, ValueError):
        rec.hit()
        return
    fail(f"random_entropy({size!r}, {source!r}) accepted: {x!r}")


bad_calls = st.one_of(
    st.tuples(sizes, st.sampled_from(["", "System", "urandom", None, 3, "fall"])),
    st.tuples(st.sampled_from([-1, (-2,), (3, -1), (-1, -1), 2.5, "4", [2.5], (1.5,), {}]), sources))


STAND_IN = None


def subs(tier):
    global STAND_IN
    STAND_IN = native.reading()
    more = [Sub("scripted", lambda: st.tuples(sizes, sources, st.lists(READS, min_size=1, max_size=3)), scripted,
                quick=500, shards=2)] if STAND_IN else []
    return more + [
        Sub("seed_by_array", lambda: st.tuples(seeds, st.one_of(st.integers(1, 20), st.integers(1, 700))),
            by_array, quick=3000, shards=2),
        Sub("seed_by_array/large", lambda: st.tuples(
            st.one_of(seeds, many), st.one_of(st.integers(1, 20), st.integers(701, 9000), st.just(65_537))),
            by_array, quick=60),
        Sub("seed_by_array/invalid", lambda: st.tuples(bad_seeds, st.integers(1, 5)), bad, quick=500),
        Sub("random_entropy", lambda: st.tuples(sizes, sources, st.booleans()), entropy, quick=800,
            shards=2),
        Sub("interrupted", lambda: st.tuples(
            st.one_of(st.integers(200_000, 1_000_000), st.tuples(st.integers(1, 7), st.just(150_000))),
            st.sampled_from(["system", "auto"]), st.sampled_from([.2, .5, 1, 1, 2, 4])), interrupted, quick=60,
            shards=2),
        Sub("unavailable", lambda: st.tuples(sizes, st.sampled_from(["system", "auto", "fallback"]),
                                             st.integers(1, 3)), unavailable, quick=300),
        Sub("faulty", lambda: st.tuples(
            st.one_of(st.tuples(st.just("read"), st.sampled_from([0, errno.EIO, errno.EAGAIN, errno.EBADF, errno.EPERM])),
                      st.tuples(st.just("open"), st.sampled_from([errno.ENOENT, errno.EACCES, errno.EMFILE]))),
            sizes, st.sampled_from(["system", "system", "auto", "auto", "fallback"]), st.integers(1, 3)),
            faulty, quick=150, shards=2),
        Sub("random_entropy/invalid", lambda: bad_calls, bad_entropy, quick=100),
    ]
