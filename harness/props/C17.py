"""ExtendedGenerator.random and uintegers: every output comes from the stream, in order."""

import math

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from ..common import canon, counts, seed_int
from ..core import Sub, check, fail
from ..gens import CFGS
from ._big import shapes as big_shapes
from ._ops import apply, history

BUDGET = 6

RULE = ("One case: a generator after a history and a list of random()/uintegers() calls with any dtype, "
        "size form and output array (C, Fortran, 0-d, view), valid or not; values are compared with the "
        "same outputs taken one by one from a twin, and rejected calls must leave generator and array "
        "untouched. Non-trivial: a call filling more than one value.")
LD = np.longdouble
DTYPES = {"d": np.float64, "float64": np.float64, "f": np.float32, "float32": np.float32,
          "longdouble": LD, "g": LD, "f8": np.float64, "f4": np.float32, "type-d": np.float64,
          "type-f": np.float32, "type-g": LD, "default": np.float64}
shape = st.one_of(st.lists(st.integers(0, 4), max_size=3), st.lists(st.integers(1, 4), max_size=4),
                  counts.map(lambda n: [n]), st.sampled_from([[64], [100], [255], [256], [3, 171], [600], [1025]]))
form = st.sampled_from(["tuple", "tuple", "list", "int", "npint", "nptuple"])
MISTAKES = ("dtype", "size", "strided", "readonly", "swapped", "misaligned", "list", "scalar", "memoryview",
            "badsize", "baddtype", "badbits")
call = st.one_of(
    st.tuples(st.just("random"), st.sampled_from(sorted(DTYPES)), st.one_of(st.none(), shape), form,
              st.sampled_from([None, None, "C", "F", "C+size", "F+size", "view"])),
    st.tuples(st.just("random"), st.sampled_from(sorted(DTYPES)), st.one_of(st.none(), shape), form,
              st.just(None)),
    st.tuples(st.just("uintegers"), st.sampled_from([32, 64, None]), st.one_of(st.none(), shape), form,
              st.just(None)),
    st.tuples(st.just("bad"), st.sampled_from(sorted(DTYPES)), shape, form, st.sampled_from(MISTAKES)),
)


class Twin:
    def __init__(self, bg):
        self.bg, self.c = bg, bg.ctypes

    def take(self, kind, n):
        c = self.c
        if kind == "d":
            return [c.next_double(c.state) for _ in range(n)]
        if kind == "f":
            return [float(np.float32(c.next_uint32(c.state) >> 9) / np.float32(1 << 23))
                    for _ in range(n)]
        if kind == "g":
            # exact: 64 bits of mantissa
            return [LD(c.next_uint64(c.state)) / LD(2.0**64) for _ in range(n)]
        f = c.next_uint32 if kind == 32 else c.next_uint64
        return [f(c.state) for _ in range(n)]


def sized(dims, how):
    if dims is None:
        return None
    if how in ("int", "npint"):
        n = dims[0] if dims else 3
        return n if how == "int" else np.int64(n)
    if how == "list":
        return list(dims)
    if how == "nptuple":
        return tuple(np.intp(v) for v in dims)
    return tuple(dims)


def kind_of(dt):
    return {np.float64: "d", np.float32: "f", LD: "g"}[dt]


def arg(name):
    return {"type-d": np.float64, "type-f": np.float32, "type-g": LD}.get(name, name)


def run(eg, twin, todo, name, rec):
    for what, typ, dims, how, out in todo:
        size = sized(dims, how)
        text = f"{name}: {what}({typ}, size={size!r}, out={out})"
        if what == "uintegers":
            bits = typ or 64
            got = eg.uintegers(size) if typ is None else eg.uintegers(size, bits)
            if size is None:
                check(type(got) is int, f"{text} is a {type(got)}")
                check(got == twin.take(bits, 1)[0], f"{text} = {got}")
                continue
            full = np.empty(size, np.uint32 if bits == 32 else np.uint64)
            check(got.shape == full.shape and got.dtype == full.dtype, f"{text}: {got.shape} {got.dtype}")
            want = twin.take(bits, full.size)
            check(got.ravel().tolist() == want, f"{text} differs from the stream")
        elif what == "random":
            dt = DTYPES[typ]
            kw = {} if typ == "default" else {"dtype": arg(typ)}
            if out is None:
                got = eg.random(size, **kw)
                if size is None:
                    check(isinstance(got, LD if dt is LD else float), f"{text} is a {type(got)}")
                    check(got == twin.take(kind_of(dt), 1)[0] and 0 <= got < 1, f"{text} = {got!r}")
                    continue
                full = np.empty(size, dt)
                check(got.shape == full.shape and got.dtype == dt, f"{text}: {got.shape} {got.dtype}")
                flat = got.ravel()
            else:
                target = np.full(tuple(dims or ()), 7, dtype=dt, order="F" if out[0] == "F" else "C")
                around = None
                if out == "view":  # contiguous part of a larger array
                    around = np.full((target.size + 6,), 7, dtype=dt)
                    target = around[3:3 + target.size].reshape(target.shape)
                if "+size" in out:
                    got = eg.random(target.shape, out=target, **kw)
                else:
                    got = eg.random(out=target, **kw)
                check(got is target, f"{text} does not return out")
                flat = target.ravel(order="K")
                if around is not None:
                    check((around[:3] == 7).all() and (around[3 + target.size:] == 7).all(),
                          f"{text} wrote outside out")
            want = twin.take(kind_of(dt), flat.size)
            check(all(a == b for a, b in zip(flat, want)), f"{text} differs from the stream")
            check(all(0 <= v < 1 for v in flat), f"{text} outside [0, 1)")
            if flat.size > 1:
                rec.hit(kind_of(dt) + (" out" if out else ""))
            continue
        else:
            mistake(eg, typ, dims, out, text)
            rec.label(out)
            continue
        if full.size > 1:
            rec.hit("uintegers")


def mistake(eg, typ, dims, how, text):
    dt = DTYPES[typ]
    kw = {} if typ == "default" else {"dtype": arg(typ)}
    shp = tuple(d + 2 for d in dims) or (3,)
    ok = np.full(shp, 7, dtype=dt)
    size = None
    if how == "dtype":
        ok = np.full(shp, 7, dtype=np.float32 if dt is not np.float32 else np.float64)
    elif how == "size":
        size = shp + (1,) if len(shp) % 2 else (shp[0] + 1,) + shp[1:]
    elif how == "strided":
        ok = np.full(shp[:-1] + (shp[-1] * 2,), 7, dtype=dt)[..., ::2]
    elif how == "readonly":
        ok.flags.writeable = False
    elif how == "swapped":
        ok = ok.astype(np.dtype(dt).newbyteorder())
    elif how == "misaligned":
        n = math.prod(shp) * np.dtype(dt).itemsize
        ok = np.full(n + 1, 7, dtype=np.uint8)[1:].view(dt).reshape(shp)
    elif how == "list":
        ok = ok.tolist()
    elif how == "scalar":
        ok = 3
    elif how == "memoryview":
        ok = memoryview(bytearray(64))
    before = repr(ok)
    state = canon(eg.state)
    try:
        if how == "badsize":
            got = eg.random(-1 if len(dims) % 2 else (2, -1), **kw)
        elif how == "baddtype":
            got = eg.random(3, dtype=["i8", "f2", "c16", "u4", "U3", "?"][len(dims) % 6])
        elif how == "badbits":
            got = eg.uintegers(3, [0, 16, 128, 63, -32][len(dims) % 5])
        else:
            got = eg.random(size, out=ok, **kw)
    except (TypeError, ValueError):
        check(repr(ok) == before, f"{text}: the rejected output array was written to")
        check(canon(eg.state) == state, f"{text}: a rejected call moved the generator")
        return
    fail(f"{text} accepted: {got!r}")


def body_for(cfg):
    def body(case, rec):
        seed, hist, todo = case
        a, b = cfg.make(seed), cfg.make(seed)
        apply(a, hist)
        apply(b, hist)
        eg, twin = ExtendedGenerator(a), Twin(b)
        run(eg, twin, todo, str(cfg), rec)
        check(canon(a.state) == canon(b.state), f"{cfg}: state after {todo}")

    return body


def large(case, rec):
    """A large call equals small ones in a row, which the others compare with single outputs."""
    cfg, seed, hist, typ, shp, out = case
    a, b = cfg.make(seed), cfg.make(seed)
    apply(a, hist)
    apply(b, hist)
    eg, twin = ExtendedGenerator(a), ExtendedGenerator(b)
    text = f"{cfg}: {typ} size {shp} out {out}"
    if typ in (32, 64):
        got = eg.uintegers(shp, typ)
    elif out is None:
        got = eg.random(shp, dtype=typ)
    else:
        target = np.full(shp, 7, dtype=DTYPES[typ], order=out)
        got = eg.random(out=target, dtype=typ)
        check(got is target, f"{text} does not return out")
    check(got.shape == tuple(shp), f"{text}: shape {got.shape}")
    flat = got.ravel(order="K")
    for i in range(0, flat.size, 1000):
        n = min(1000, flat.size - i)
        want = twin.uintegers(n, typ) if typ in (32, 64) else twin.random(n, dtype=typ)
        same = flat[i:i + n] == want
        check(same.all(), lambda: f"{text}: value {i + int(np.argmin(same))} differs from that of small calls")
    check(canon(a.state) == canon(b.state), f"{text}: state")
    rec.hit("large")


def subs(tier):
    return [Sub("large", lambda: st.sampled_from(CFGS).flatmap(lambda c: st.tuples(
        st.just(c), seed_int(), history(c, 2), st.sampled_from(["f", "d", "longdouble", 32, 64]), big_shapes,
        st.sampled_from([None, None, "C", "F"]))), large, quick=60, shards=2)] + [Sub(str(c), lambda c=c: st.tuples(seed_int(), history(c, 3),
                                              st.lists(call, min_size=1, max_size=6)),
                body_for(c), quick=100) for c in CFGS]
