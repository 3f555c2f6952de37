"""RDRAND: each hardware word is handed out once, and failures are reported."""

import copy
import pickle
import sys
import threading
import time

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator, PCG64, RDRAND

from .. import native
from ..common import canon
from ..core import Sub, check, fail
from .C22 import EXT, LEG, SMALL, extended, legacy

RULE = ("One case: histories of draws of every kind and size on several RDRAND instances (made, copied, "
        "pickled, jumped), with the instruction made to fail and recover in between (the retries in the "
        "state), against a model of the buffer that the state shows; every drawing method while the "
        "instruction fails; threads on shared and separate instances; histories over a stand-in for the "
        "instruction that fails where a script says so (a build of the module of its own). All words of the process must "
        "differ. Non-trivial: a refill, a failure, or several instances.")

BUFFER = 256
try:
    RDRAND()
    AVAILABLE = True
except RuntimeError:
    AVAILABLE = False

SEEN = set()  # every word this process was given


def fresh(words, text):
    for w in words:
        check(w not in SEEN, f"{text}: the word {w} was handed out before")
        SEEN.add(w)


def with_retries(bg, n):
    s = bg.state
    s["retries"] = n
    bg.state = s


TO = {
    "u64": lambda w: w,
    "u32": lambda w: w & 0xFFFFFFFF,
    "dbl": lambda w: (w >> 11) * 2.0**-53,
    "flt": lambda w: float(np.float32((w & 0xFFFFFFFF) >> 8) * np.float32(2.0**-24)),
    "flt9": lambda w: float(np.float32((w & 0xFFFFFFFF) >> 9) * np.float32(2.0**-23)),
    "ld": lambda w: np.longdouble(w) / np.longdouble(2.0**64),
}


def draw(bg, how, n):
    """Values and what they are made of"""
    via, kind = how
    if via == "np":
        g = np.random.Generator(bg)
        if kind == "u64":
            return g.integers(0, 2**64, n, dtype=np.uint64)
        if kind == "u32":
            return g.integers(0, 2**32, n, dtype=np.uint32)
        return g.random(n, dtype=np.float32 if kind == "flt" else np.float64)
    g = ExtendedGenerator(bg)
    if kind in ("u64", "u32"):
        return g.uintegers(n, bits=int(kind[1:]))
    return g.random(n, dtype={"flt9": np.float32, "dbl": np.float64, "ld": np.longdouble}[kind])


HOWS = [("np", "u64"), ("np", "u32"), ("np", "dbl"), ("np", "flt"),
        ("ext", "u64"), ("ext", "u32"), ("ext", "dbl"), ("ext", "flt9"), ("ext", "ld")]
TABLES = [(t, k) for t in ("ctypes", "cffi") for k in ("u64", "u32", "dbl")]
COUNT = st.one_of(st.integers(1, 20), st.sampled_from([100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 1000]),
                  st.integers(1, 600))


class Model:
    """What the buffer and the flags must be"""

    def __init__(self, bg, retries):
        self.bg, self.retries, self.ok = bg, retries, True
        self.buffer, self.loc = self.look()
        check(self.loc == BUFFER, f"a new instance starts at {self.loc} of its buffer")

    def look(self):
        s = self.bg.state
        return [int(v) for v in s["buffer"]], s["buffer_loc"]

    def fails(self, n):
        """Does drawing n words from the buffer report a failure?"""
        return self.ok and self.retries < 0 and self.loc + n > BUFFER

    def drawn(self, got, n, to, text):
        """n words were drawn from the buffer; got: the values, if the call returned them"""
        old, left = self.buffer, BUFFER - self.loc
        new, loc = self.look()
        refills = 0 if n <= left else (n - left + BUFFER - 1) // BUFFER
        want = self.loc + n if not refills else n - left - (refills - 1) * BUFFER
        check(loc == want, f"{text}: the buffer is at {loc}, expected {want}")
        real = self.retries >= FEW or (self.retries >= 0 and self.ok)
        if not refills:
            check(new == old, f"{text}: the buffer changed")
        elif real:
            fresh(new, text)
        if got is not None:
            head = old[self.loc:self.loc + n]
            check(all(a == to(b) for a, b in zip(got, head)), f"{text}: not the words of the buffer in order")
            if refills:
                tail = new[:loc]
                check(all(a == to(b) for a, b in zip(got[n - loc:], tail)),
                      f"{text}: the last values are not the words of the new buffer")
                if real and to is TO["u64"]:
                    fresh([int(v) for v in got[len(head):n - loc]], text)
        if refills and self.retries < 0:
            self.ok = False
        self.buffer, self.loc = new, loc

    def rest(self, text):
        s = self.bg.state
        check(self.bg.success is self.ok and s["status"] == int(self.ok), f"{text}: success is {self.bg.success}")
        check(s["retries"] == self.retries, f"{text}: retries are {s['retries']}")
        check(self.bg.lock.acquire(False), f"{text}: the lock is still held")
        self.bg.lock.release()


RAW = st.one_of(st.none(), st.integers(1, 40), st.sampled_from([300, (2, 3), (1,), [4], (), (3, 1, 2)]))
OP = st.one_of(
    st.tuples(st.just("draw"), st.sampled_from(HOWS), COUNT), st.tuples(st.just("draw"), st.sampled_from(HOWS), COUNT),
    st.tuples(st.just("table"), st.sampled_from(TABLES), st.integers(1, 300)),
    st.tuples(st.just("raw"), RAW, st.booleans()),
    st.tuples(st.just("retries"), st.sampled_from([-1, -1, -5, 0, 3, 100, 1000]), st.none()),
    st.tuples(st.just("reset"), st.none(), st.none()),
    st.tuples(st.just("another"), st.sampled_from(["new", "copy", "deepcopy", "pickle", "jumped"]), st.integers(0, 5)),
    st.tuples(st.just("switch"), st.integers(0, 5), st.none()))


FAILED = st.tuples(st.sampled_from([("draw", ("np", "u64"), 300), ("raw", None, True), ("raw", 3, True), ("raw", 2, False)]),
                   st.sampled_from([100, 1000])).map(lambda t: [("retries", -1, None), t[0], ("retries", t[1], None)])
HISTORY = st.one_of(
    st.lists(OP, min_size=2, max_size=12),
    st.tuples(st.lists(OP, max_size=2), FAILED, st.lists(OP, min_size=1, max_size=6)).map(lambda t: t[0] + t[1] + t[2]))
FEW = 50  # with fewer retries the instruction may really fail


def another(bg, how, n):
    if how == "new":
        return RDRAND(retries=100)
    if how == "jumped":
        return bg.jumped(n)
    if how == "pickle":
        return pickle.loads(pickle.dumps(bg))
    return getattr(copy, how)(bg)


def history(case, rec):
    live = [Model(RDRAND(retries=100), 100)]
    m = live[0]
    for i, (name, a, b) in enumerate(case):
        text = f"operation {i} ({name} {a} {b})"
        bg = m.bg
        if name == "draw":
            expected = m.fails(b)
            refill = m.loc + b > BUFFER
            try:
                got = draw(bg, a, b).tolist() if a[1] != "ld" else list(draw(bg, a, b))
            except RuntimeError:
                if 0 <= m.retries < FEW:
                    rec.label("the instruction failed")
                    return
                check(expected, f"{text} raised")
                got = None
            else:
                check(not expected, f"{text}: the failure was not reported")
                check(len(got) == b, f"{text}: {len(got)} values")
            m.drawn(got, b, TO[a[1]], text)
            if expected:
                rec.hit("failure")
            elif refill:
                rec.hit("refill" if m.ok else "refill after a failure")
        elif name == "table":
            table = getattr(bg, a[0])
            f = {"u64": table.next_uint64, "u32": table.next_uint32, "dbl": table.next_double}[a[1]]
            at = table.state
            for _ in range(b):
                if m.fails(1):  # what the raw functions do is up to their caller: the state tells
                    try:
                        f(at)
                    except (RuntimeError, SystemError):
                        pass
                    m.drawn(None, 1, None, text)
                    rec.label("failure in a table")
                else:
                    try:
                        value = f(at)
                    except (RuntimeError, SystemError):
                        if not 0 <= m.retries < FEW:
                            raise
                    if 0 <= m.retries < FEW and bg.success is not m.ok:
                        rec.label("the instruction failed")
                        return
                    m.drawn([value], 1, TO[a[1]], text)
        elif name == "raw":
            before = m.look()
            expected = not m.ok or m.retries < 0
            try:
                got = bg.random_raw(a) if b else bg.random_raw(a, output=False)
            except RuntimeError:
                if 0 <= m.retries < FEW and m.ok:
                    rec.label("the instruction failed")
                    return
                check(expected, f"{text} raised")
                m.ok = False
                rec.hit("failure")
            else:
                check(not expected, f"{text}: the failure was not reported")
                if not b:
                    check(got is None, f"{text} is a {type(got)}")
                elif a is None:
                    check(type(got) is int, f"{text} is a {type(got)}")
                    fresh([got], text)
                else:
                    check(got.shape == np.empty(a).shape and got.dtype == np.uint64, f"{text}: {got.shape}")
                    fresh(got.ravel().tolist(), text)
            check(m.look() == before, f"{text}: the buffer changed")
        elif name == "retries":
            with_retries(bg, a)
            m.retries = a
        elif name == "reset":
            bg._reset()
            if not m.ok:
                m.ok, m.loc = True, BUFFER
        elif name == "another":
            new = another(bg, a, b)
            check(type(new) is RDRAND and new is not bg, f"{text} is a {type(new)}")
            live.append(Model(new, 100 if a == "new" else m.retries))
            rec.hit(a)
            live[-1].rest(text)
        else:
            m = live[a % len(live)]
        for x in live:
            x.rest(text)
            if x is not m:
                check(x.look() == (x.buffer, x.loc), f"{text} changed another instance")


def call(bg, name, a):
    if name in EXT:
        return extended(ExtendedGenerator(bg), name, a)
    if name in LEG:
        return legacy(np.random.Generator(bg), name, a)
    return bg.random_raw(a[1])


def reported(case, rec):
    """Every drawing method tells that the instruction failed while it ran, whatever standard output is."""
    name, (n, size, flag), stdout, shared = case
    bg = RDRAND(retries=100)
    with_retries(bg, -1)
    if shared:
        bg = ExtendedGenerator(bg).bit_generator
    text = f"{name} {(n, size, flag)}"
    kept = sys.stdout
    try:
        if stdout == "none":
            sys.stdout = None
        # some arguments draw nothing
        twin = PCG64(1)
        before = canon(twin.state)
        call(twin, name, (n, size, flag))
        draws = canon(twin.state) != before
        raised = None
        try:
            call(bg, name, (n, size, flag))
        except Exception as e:
            raised = e
    finally:
        sys.stdout = kept
    check(draws == (raised is not None), f"{text}: {'no failure' if raised is None else 'a failure'} reported")
    if raised is not None:
        check(type(raised) is RuntimeError, f"{text}: {type(raised).__name__} raised: {raised}")
        check(not bg.success, f"{text}: success after a failure")
        rec.hit(name)
    check(bg.lock.acquire(False), f"{text}: the lock is still held")
    bg.lock.release()
    bg._reset()
    with_retries(bg, 100)
    call(bg, name, (n, size, flag))
    check(bg.success, f"{text}: no success after a reset")
    # an error that is pending elsewhere is none of the lock's business
    try:
        with bg.lock:
            raise KeyError("mine")
    except KeyError:
        pass
    check(bg.lock.acquire(False), f"{text}: the lock is still held after an exception")
    bg.lock.release()


def threads(case, rec):
    jobs, shared = case
    one = RDRAND(retries=1000)
    out, errors = [[] for _ in jobs], []
    gate = threading.Barrier(len(jobs))

    def work(i, sizes):
        try:
            bg = one if shared else RDRAND(retries=1000)
            g = ExtendedGenerator(bg)
            gate.wait()
            for how, n in sizes:
                v = bg.random_raw(n) if how == "raw" else g.uintegers(n)
                out[i].extend(v.tolist())
        except Exception as e:  # reported below
            errors.append(e)

    ts = [threading.Thread(target=work, args=(i, j)) for i, j in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        fail(f"{case}: {errors}")
    for i, words in enumerate(out):
        check(len(words) == sum(n for _, n in jobs[i]), f"{case}: {len(words)} words")
        fresh(words, f"thread {i} of {case}")
    rec.hit("shared" if shared else "separate")


def failing(case, rec):
    """Of the calls of all threads, the one that meets the failure reports it, and every raw one does."""
    jobs, shared = case
    one = RDRAND(retries=1000)
    with_retries(one, -1)
    drawn, raw, other = [0] * len(jobs), [0] * len(jobs), []
    gate = threading.Barrier(len(jobs))

    def work(i, sizes):
        bg = one
        if not shared:
            bg = RDRAND(retries=1000)
            with_retries(bg, -1)
        g = ExtendedGenerator(bg)
        gate.wait()
        for how, n in sizes:
            try:
                if how == "raw":
                    bg.random_raw(n)
                else:
                    g.uintegers(n)
            except RuntimeError:
                if how == "raw":
                    raw[i] += 1
                else:
                    drawn[i] += 1
            except BaseException as e:  # reported below
                other.append(e)

    ts = [threading.Thread(target=work, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        check(not t.is_alive(), f"{case}: a thread is stuck")
    check(not other, f"{case}: {other}")
    check(raw == [sum(how == "raw" for how, _ in j) for j in jobs], f"{case}: raw draws that raised: {raw}")
    if shared:
        # a raw draw may have turned the status over before any other met the failure
        met = any(how != "raw" for j in jobs for how, _ in j)
        mixed = any(how == "raw" for j in jobs for how, _ in j)
        low = int(met and not mixed)
        check(low <= sum(drawn) <= int(met), f"{case}: calls that raised: {drawn}")
    else:
        want = [int(j[0][0] != "raw") for j in jobs]
        check(drawn == want, f"{case}: calls that raised: {drawn}, expected {want}")
    check(one.lock.acquire(False), f"{case}: the lock is still held")
    one.lock.release()
    rec.hit("shared" if shared else "separate")


def rejected(case, rec):
    how, v = case
    bg = RDRAND(retries=100)
    before = canon(bg.state)
    try:
        if how == "retries":
            RDRAND(retries=v)
        elif how == "seed":
            bg.seed(v)
        elif how == "make":
            RDRAND(v)
        elif how == "name":
            bg.state = {**bg.state, "bit_generator": v}
        elif how == "delete":
            bg.state = {k: x for k, x in bg.state.items() if k not in ("retries", "bit_generator")}
        else:
            bg.state = v
    except (TypeError, ValueError, OverflowError, KeyError):
        check(canon(bg.state) == before, f"{case} changed the instance")
        rec.hit(how)
        return
    fail(f"{case} accepted")


def few(case, rec):
    """The first attempt counts too: however few the retries, not every draw fails."""
    retries, size, output, how = case
    for _ in range(3000):
        bg = RDRAND(retries=retries)
        if how == "state":
            with_retries(bg, 1000)
            with_retries(bg, retries)
        elif how == "copy":
            bg = copy.copy(bg)
        elif how == "jumped":
            bg = bg.jumped()
        try:
            got = bg.random_raw(size, output)
        except RuntimeError:
            check(not bg.success, f"{case}: success after a failure")
            time.sleep(.002)
            continue
        check(bg.success, f"{case}: a failure although nothing was raised")
        if output:
            fresh([got] if size is None else got.ravel().tolist(), f"{case}")
        rec.hit(how)
        return
    fail(f"{case}: 3000 draws in a row failed")


BAD = st.one_of(
    st.tuples(st.just("retries"), st.sampled_from([-1, -2, -2**31, 2**31, 2**64, None, "3"])),
    st.tuples(st.sampled_from(["seed", "make"]), st.sampled_from([0, 1, -1, 2**200, "x", 1.0, [1], (), True, b""])),
    st.tuples(st.just("name"), st.sampled_from(["PCG64", "", None, 3, "rdrand", "RDRAND2", "randomgen.pcg64.PCG64"])),
    st.tuples(st.just("delete"), st.none()),
    st.tuples(st.just("value"), st.sampled_from([None, 1, "RDRAND", [], (1, 2), np.zeros(3)])))


# ------------------------------------------------------------ a scripted instruction
class Scripted:
    """What the documentation promises, over the script: first tries, retries, failures, the buffer."""

    def __init__(self, feed, retries):
        self.feed, self.retries, self.ok = feed, retries, True
        self.buffer, self.loc = [None] * BUFFER, BUFFER

    def word(self):
        for _ in range(self.retries + 1):
            w = self.feed()
            if w is not None:
                return w
        return None

    def raw(self, n):
        got = [self.word() for _ in range(n)]
        self.ok = self.ok and None not in got
        return got if self.ok else None

    def draws(self, n):
        """(values, None where not a hardware word; whether the call raises)"""
        got, told = [], False
        for _ in range(n):
            if self.loc == BUFFER:
                self.buffer, self.loc = [self.word() for _ in range(BUFFER)], 0
                if self.ok and None in self.buffer:
                    self.ok, told = False, True
            got.append(self.buffer[self.loc])
            self.loc += 1
        return got, told


def feeder(script):
    at, given = [0], [0]

    def feed():
        ok = script[at[0]] if at[0] < len(script) else 1
        at[0] += 1
        if not ok:
            return None
        given[0] += 1
        return native.word(given[0])

    return feed


SCRIPT = st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 17, 100, 254, 255, 256, 257, 300, 512]),
                            st.sampled_from([0, 1, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 20, 21, 22, 40])),
                  max_size=8)
TRIES = st.sampled_from([0, 0, 1, 2, 5, 10, 10, 20])
WHICH = st.integers(0, 3)
AMOUNT = st.sampled_from([1, 1, 2, 3, 16, 100, 255, 256, 257, 300])
SCRIPTED = st.tuples(SCRIPT, TRIES, st.lists(st.one_of(
    st.tuples(st.sampled_from(["raw", "no output", "dbl", "u64", "u32", "lib"]), WHICH, AMOUNT),
    st.tuples(st.sampled_from(["raw", "dbl", "u64"]), WHICH, AMOUNT),
    st.tuples(st.just("one"), WHICH, st.just(1)),
    st.tuples(st.just("retries"), WHICH, TRIES),
    st.tuples(st.sampled_from(["jumped", "reread"]), WHICH, st.just(0))), min_size=1, max_size=10))


def scripted(case, rec):
    cls, play, _ = STAND_IN
    segments, tries, ops = case
    script = b"".join(b"\1" * a + b"\0" * b for a, b in segments)
    play(script)
    feed = feeder(script)
    pool = [(cls(retries=tries), Scripted(feed, tries))]
    failed = retried = False
    for op in ops:
        name, i, n = op
        bg, m = pool[i % len(pool)]
        text = f"{op} after {ops[:ops.index(op)]}, script {segments}, retries {m.retries}"
        if name in ("raw", "one", "no output"):
            want = m.raw(n)
            try:
                got = bg.random_raw(None if name == "one" else n, output=name != "no output")
                got = [got] if name == "one" else got if got is None else got.tolist()
            except RuntimeError:
                check(want is None, f"{text}: raised although no word of it failed")
            else:
                check(want is not None, f"{text}: did not raise")
                check(got == (None if name == "no output" else want), f"{text}: other values")
        elif name in ("dbl", "u64", "u32", "lib"):
            want, told = m.draws(n)
            try:
                if name == "lib":
                    got = ExtendedGenerator(bg).uintegers(n, bits=64)
                else:
                    g = np.random.Generator(bg)
                    got = (g.random(n) if name == "dbl" else
                           g.integers(0, 2**64, n, dtype=np.uint64) if name == "u64" else
                           g.integers(0, 2**32, n, dtype=np.uint32))
            except RuntimeError:
                check(told, f"{text}: raised although no word of it failed")
            else:
                check(not told, f"{text}: did not raise")
                to = TO["u64" if name == "lib" else name]
                for j, (x, w) in enumerate(zip(got.tolist(), want)):
                    check(w is None or x == to(w), f"{text}: value {j} is {x}, not from the word {w}")
        elif name == "retries":
            with_retries(bg, n)
            m.retries = n
        elif name == "jumped":
            pool.append((bg.jumped(), Scripted(feed, m.retries)))
        elif name == "reread":
            bg.state = bg.state
        failed |= not m.ok
        retried |= len(segments) > 0 and m.ok and m.retries > 0
        check(bg.success is m.ok, f"{text}: success is {bg.success}")
        check(bg.lock.acquire(False), f"{text}: the lock is held")
        bg.lock.release()
        shown = bg.state["buffer"].tolist()
        check(all(w is None or x == w for x, w in zip(shown, m.buffer)), f"{text}: the buffer shown differs")
        if m.loc < BUFFER and m.buffer.count(None) > 1:
            check(len({x for x, w in zip(shown, m.buffer) if w is None}) > 1,
                  f"{text}: samplers that reject would not end on these outputs")
    if failed or retried:
        rec.hit("failure" if failed else "retried")


STAND_IN = None


def subs(tier):
    if not AVAILABLE:
        def absent(case, rec):
            try:
                RDRAND()
            except RuntimeError:
                rec.hit()
                return
            fail("RDRAND is available now and then")
        return [Sub("absent", lambda: st.integers(0, 9), absent, quick=10)]
    global STAND_IN
    STAND_IN = native.load()
    jobs = st.lists(st.lists(st.tuples(st.sampled_from(["raw", "buffer", "buffer"]), COUNT), min_size=1, max_size=4),
                    min_size=2, max_size=4)
    more = [Sub("scripted", lambda: SCRIPTED, scripted, quick=300, shards=2)] if STAND_IN else []
    return more + [
        Sub("histories", lambda: HISTORY, history, quick=700, shards=4),
        Sub("reported", lambda: st.tuples(
            st.sampled_from(EXT + LEG + ["raw"]), st.tuples(st.integers(1, 4), SMALL, st.integers(0, 2)),
            st.sampled_from(["usual", "none"]), st.booleans()), reported, quick=600, shards=2),
        Sub("threads", lambda: st.tuples(jobs, st.booleans()), threads, quick=100),
        Sub("failing", lambda: st.tuples(jobs, st.booleans()), failing, quick=100),
        Sub("few retries", lambda: st.tuples(
            st.sampled_from([0, 0, 1, 2, 5]), st.sampled_from([None, 1, 2, (2, 1)]), st.booleans(),
            st.sampled_from(["new", "state", "copy", "jumped"])), few, quick=50),
        Sub("rejected", lambda: BAD, rejected, quick=60)]
