"""Broadcast sampling: the scalar sampler per element, the same constraints for scalars and arrays."""

import math

from hypothesis import strategies as st
import numpy as np
from randomgen import PCG64
from randomgen.tests._shims import ShimGenerator, int_to_array_shim, object_to_int_shim

from ..common import M64, uint
from ..core import Sub, check, fail
from .C22 import Proxy, SpyLock

RULE = ("One case: a sampler of zero to three parameters (the shims the library compiles for its own tests "
        "over the broadcasting helpers), for each parameter a shape (of up to 24000 elements) and values in or out of its "
        "domain in some spelling (list, integer, strided, reversed, swapped, broadcast view), a size and "
        "an output array, fitting or not; results are compared with numpy broadcasting of the sampler "
        "function, rejections must leave the output array alone. Or an integer against its array form and "
        "back. Non-trivial: an array parameter, or a value of several words.")
NAN, INF = math.nan, math.inf
TINY = 5e-324
POIS = float(np.iinfo("int64").max) - math.sqrt(float(np.iinfo("int64").max)) * 10

# domain -> (good, bad)
DOM = {
    "nonneg": ([0.0, 0.5, 1.0, 2.5, 1e9, TINY, INF, NAN], [-0.0, -TINY, -1.0, -INF]),
    "pos": ([0.5, 1.0, 2.5, 3.0, 1e9, TINY, INF, NAN], [0.0, -0.0, -TINY, -1.0, -INF]),
    "posnn": ([0.5, 1.0, 2.5, 3.0, 1e9, TINY, INF], [0.0, -0.0, -TINY, -1.0, -INF, NAN]),
    "01": ([0.0, -0.0, 0.5, 1.0, TINY], [-TINY, -1.0, 1.0000000000000002, INF, -INF, NAN]),
    "gt01": ([0.5, 1.0, TINY, 0.125], [0.0, -0.0, -1.0, 1.0000000000000002, INF, NAN]),
    "gt1": ([1.0000000000000002, 2.0, 1e9, INF], [1.0, 0.0, -1.0, 0.9999999999999999, NAN, -INF]),
    "gte1": ([1.0, 1.0000000000000002, 2.0, 1e9, INF], [0.9999999999999999, 0.0, -1.0, NAN, -INF]),
    "poisson": ([0.0, -0.0, 0.5, 1e9, POIS], [-TINY, -1.0, POIS * 1.001, INF, -INF, NAN]),
    "fpos": ([0.5, 1.0, 0.1, 3.0, 1e30, INF, NAN], [0.0, -0.0, -1.0, -INF, 1e-60]),
    # for samplers that convert to integers
    "dpos": ([0.5, 1.0, 2.25, 3.0, 1e5], [0.0, -0.0, -TINY, -1.0, -INF]),
    "dnonneg": ([0.0, 0.5, 1.0, 2.25, 1e5], [-0.0, -TINY, -1.0, -INF]),
    "inonneg": ([0, 1, 2, 3, 1000, 2 ** 40, 7], [-1, -2, -2 ** 63]),
    "ipos": ([1, 2, 3, 1000, 2 ** 40, 7], [0, -1, -2 ** 63]),
}


def trunc(v):
    return int(v)


# name -> (domains, function, result dtype, takes out)
FUN = {
    "cont_0": ([], lambda: 3.141592, np.float64, True),
    "cont_1": (["nonneg"], lambda a: a, np.float64, True),
    "cont_2": (["pos", "posnn"], lambda a, b: a + b, np.float64, True),
    "cont_3": (["01", "gt01", "gt1"], lambda a, b, c: a + b + c, np.float64, True),
    "cont_3_alt_cons": (["gte1", "poisson", "poisson"], lambda a, b, c: a + b + c, np.float64, True),
    "cont_1_float": (["fpos"], lambda a: np.float32(a), np.float32, True),
    "cont_f_fill": ([], lambda: np.float32(3.141592), np.float32, True),
    "disc_0": ([], lambda: 3, np.int64, False),
    "disc_d": (["dpos"], lambda a: trunc(10 * a), np.int64, False),
    "disc_dd": (["dpos", "dnonneg"], lambda a, b: trunc(10 * a * b), np.int64, False),
    "disc_di": (["dpos", "inonneg"], lambda a, b: trunc(2 * a * float(b)), np.int64, False),
    "disc_i": (["inonneg"], lambda a: a, np.int64, False),
    "disc_iii": (["ipos", "inonneg", "ipos"], lambda a, b, c: a + b + c, np.int64, False),
}
SHAPES = [(), (), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3), (3, 1, 2), (0,), (1, 1), (4,), (2, 1, 3), (2, 0)]
HOW = ["array", "array", "list", "int", "strided", "reversed", "swapped", "fortran", "view", "readonly",
       "misaligned"]
OUTS = ["right"] * 4 + ["fortran", "strided", "readonly", "swapped", "misaligned", "dtype", "list", "scalar"]


LARGE = [(20011,), (301, 67), (7, 3001), (3001, 7), (40, 30, 20), (5000, 1), (1, 4099)]


def param(dom, shapes, wrong):
    good, bad = DOM[dom]
    return st.tuples(shapes, st.lists(st.integers(0, len(good) - 1), min_size=1, max_size=6),
                     st.tuples(st.integers(0, len(bad) - 1), st.one_of(st.integers(0, 11), st.integers(0, 1 << 16))) if wrong else st.none(),
                     st.sampled_from(HOW))


def parts(target):
    """Shapes that broadcast to the target."""
    out = {target}
    for mask in range(1 << len(target)):
        sh = tuple(1 if mask >> i & 1 else n for i, n in enumerate(target))
        for cut in range(len(target) + 1):
            if all(mask >> i & 1 for i in range(cut)):
                out.add(sh[cut:])
    return sorted(out)


@st.composite
def strategy(draw, name, targets=SHAPES):
    doms, _, _, takes = FUN[name]
    target = draw(st.sampled_from(targets))
    shapes = draw(st.sampled_from([st.sampled_from(parts(target))] * 3 + ([] if targets is LARGE else [st.sampled_from(SHAPES)])))
    wrong = draw(st.sampled_from([-1, -1, -1] + list(range(len(doms)))))
    return (tuple(draw(param(d, shapes, i == wrong)) for i, d in enumerate(doms)),
            draw(st.one_of(st.none(), st.just("fit"), st.just("fit"), st.just("more"), st.sampled_from(SHAPES))),
            draw(st.sampled_from(["tuple", "tuple", "list", "int"])),
            draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(OUTS)) if takes else st.none()))


def make(dom, p):
    """(what to pass, the plain array of values it stands for, all in the domain)"""
    shape, picks, wrong, how = p
    good, bad = DOM[dom]
    n = int(np.prod(shape))
    vals = [good[picks[i % len(picks)]] for i in range(n)]
    ok = True
    if wrong is not None and n:
        vals[wrong[1] % n] = bad[wrong[0]]
        ok = False
    dt = np.int64 if isinstance(good[0], int) else np.float64
    arr = np.array(vals, dtype=dt).reshape(shape)
    if shape == ():
        v = arr.item()
        if how in ("array", "fortran", "view"):
            return np.array(v, dtype=dt), arr, ok
        if how == "int" and dt is np.float64 and np.isfinite(v) and v == int(v) and v != 0 and abs(v) < 1e15:
            return int(v), arr, ok
        if how in ("strided", "reversed"):
            return dt(v), arr, ok
        return v, arr, ok
    if how == "list":
        return (arr.tolist() if n else arr), arr, ok
    if how == "int" and dt is np.float64 and n and all(
            np.isfinite(v) and v == int(v) and v != 0 and abs(v) < 1e15 for v in vals):
        return arr.astype(np.int32 if max(map(abs, vals)) < 2 ** 31 else np.int64), arr, ok
    if how == "int" and dt is np.int64 and n and max(map(abs, vals)) < 2 ** 31:
        return arr.astype(np.int32), arr, ok
    if how == "strided":
        big = np.full(tuple(2 * s for s in shape), -7, dtype=dt)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = arr
        return view, arr, ok
    if how == "reversed":
        rev = tuple(slice(None, None, -1) for _ in shape)
        return np.ascontiguousarray(arr[rev])[rev], arr, ok
    if how == "swapped":
        return arr.astype(np.dtype(dt).newbyteorder(">")), arr, ok
    if how == "fortran":
        return np.asfortranarray(arr), arr, ok
    if how == "view" and shape[0] > 1:
        same = np.broadcast_to(arr[:1], shape)
        return same, np.array(same), ok and all(map(bool, [wrong is None]))
    if how == "readonly":
        r = arr.copy()
        r.flags.writeable = False
        return r, arr, ok
    if how == "misaligned":
        return misaligned(shape, dt, arr), arr, ok
    return arr.copy(), arr, ok


def misaligned(shape, dt, fill):
    raw = np.zeros(int(np.prod(shape)) * np.dtype(dt).itemsize + 1, dtype=np.uint8)
    a = raw[1:].view(dt).reshape(shape)
    a[...] = fill
    return a


def make_out(kind, shape, dt):
    """(out, acceptable to a sampler without / with parameters)"""
    if kind == "list":
        return np.zeros(shape).tolist(), False, False
    if kind == "scalar":
        return 3, False, False
    if kind == "dtype":
        return np.full(shape, 7, dtype=np.float32 if dt is np.float64 else np.float64), False, False
    if kind == "swapped":
        return np.full(shape, 7, dtype=np.dtype(dt).newbyteorder(">")), False, False
    if kind == "misaligned" and shape != ():
        a = misaligned(shape, dt, 7)
        return a, *fitness(a)
    a = np.full(shape, 7, dtype=dt, order="F" if kind == "fortran" else "C")
    if kind == "strided":
        a = np.full(tuple(2 * s for s in shape), 7, dtype=dt)[tuple(slice(None, None, 2) for _ in shape)]
    if kind == "readonly":
        a.flags.writeable = False
    return a, *fitness(a)


def fitness(a):
    usable = a.flags.aligned and a.flags.writeable
    return usable and (a.flags.c_contiguous or a.flags.f_contiguous), usable and a.flags.c_contiguous


def same(a, b):
    return a == b or (a != a and b != b)


def spelled(size, how):
    if size is None or how == "tuple":
        return size
    if how == "list":
        return list(size)
    return size[0] if len(size) == 1 else size


def body_for(name):
    doms, f, dt, takes = FUN[name]

    def body(case, rec):
        params, size, how, outkind = case
        made = [make(d, p) for d, p in zip(doms, params)]
        arrs = [m[1] for m in made]
        ok = all(m[2] for m in made)
        if not ok:  # a broadcast view may have hidden the bad value
            ok = all(in_domain(d, a) for d, a in zip(doms, arrs))
        try:
            want_shape = np.broadcast_shapes(*[a.shape for a in arrs])
        except ValueError:
            want_shape = None
        if size == "fit":
            size = want_shape
        elif size == "more":
            size = None if want_shape is None else (2,) + want_shape
        passed = spelled(size, how)
        shape = size if size is not None else want_shape
        kw = {} if passed is None else {"size": passed}
        out, before = None, None
        if outkind is not None:
            oshape = shape if shape is not None else (2,)
            out, ok0, okn = make_out(outkind, oshape, dt)
            ok = ok and (okn if doms else ok0)
            kw["out"] = out
            before = np.array(out, copy=True)
            shape = oshape
        fits = True
        if want_shape is None:
            fits = False
        elif shape is not None and want_shape != ():
            try:
                fits = np.broadcast_shapes(want_shape, shape) == tuple(shape)
            except ValueError:
                fits = False
        bg = PCG64(1)
        lock = SpyLock()
        g = ShimGenerator(Proxy(bg, lock))
        before_state = repr(bg.state)
        call = f"{name}({', '.join(repr(m[0]) for m in made)}, {kw})"
        try:
            res = getattr(g, name)(*[m[0] for m in made], **kw)
        except (ValueError, TypeError) as e:
            check(not (ok and fits), lambda: f"{call} was rejected: {e!r}")
            if out is not None:
                check(all(map(same, np.ravel(out).tolist(), before.ravel().tolist())),
                      lambda: f"rejected {call} wrote into out")
            check(not lock.locked(), lambda: f"rejected {call} kept the lock")
            if any(a.ndim for a in arrs):
                rec.hit("rejected")
            return
        check(ok and fits, lambda: f"{call} was accepted: {res!r}")
        check(not lock.locked(), lambda: f"{call} kept the lock")
        check(np.size(res) == 0 or lock.taken == 1, lambda: f"{call} took the lock {lock.taken} times")
        check(repr(bg.state) == before_state, lambda: f"{call} moved a generator it does not draw from")
        if out is not None:
            check(res is out, lambda: f"{call} returned another array than out")
        if shape is None or (out is None and size is None and want_shape == ()):
            check(isinstance(res, int if dt is np.int64 else float) and same(res, want(f, [a.item() for a in arrs])),
                  lambda: f"{call} gave {res!r}")
            return
        check(isinstance(res, np.ndarray) and res.dtype == dt and res.shape == tuple(shape),
              lambda: f"{call} gave {type(res)} {getattr(res, 'dtype', None)} {np.shape(res)}")
        views = [np.broadcast_to(a, shape) for a in arrs]
        for idx in np.ndindex(*shape):
            w = want(f, [v[idx].item() for v in views])
            check(same(res[idx].item(), w), lambda: f"{call} [{idx}] is {res[idx]!r}, expected {w!r}")
        if any(a.ndim for a in arrs):
            rec.hit("broadcast")
        elif out is not None:
            rec.hit("out")
    return body


def want(f, args):
    with np.errstate(all="ignore"):
        v = f(*args)
    return v.item() if isinstance(v, np.generic) else v


def in_domain(dom, arr):
    bad = DOM[dom][1]
    return not any(any(same(v, b) and math.copysign(1, v) == math.copysign(1, b) for b in bad)
                   for v in arr.ravel().tolist())


# ------------------------------------------------------------- int <-> array
def ints(case, rec):
    bits, usize, value, form = case
    if bits is not None:
        value %= 1 << bits
    n = bits // usize if bits is not None else max(0, -(-value.bit_length() // usize))
    res = int_to_array_shim(value, "v", bits, usize)
    want_words = [value >> usize * i & (1 << usize) - 1 for i in range(n)]
    check(res.dtype == np.dtype(f"uint{usize}") and res.tolist() == want_words,
          lambda: f"int_to_array({value:#x}, {bits}, {usize}) gave {res.dtype} {res.tolist()}")
    if not n:
        return
    spelled_ = {"array": res, "list": res.tolist(), "tuple": tuple(res.tolist()), "np": list(res),
                "strided": np.repeat(res, 2)[::2], "ints": res.tolist()}[form]
    back = object_to_int_shim(spelled_, bits, "v", usize, (32, 64))
    check(isinstance(back, int) and back == value,
          lambda: f"object_to_int({spelled_!r}, {bits}) gave {back!r}, expected {value:#x}")
    check(object_to_int_shim(value, bits, "v") == value, "object_to_int changed an integer")
    again = int_to_array_shim(spelled_, "v", bits, usize)
    check(again.dtype == res.dtype and again.tolist() == want_words,
          lambda: f"int_to_array({spelled_!r}) gave {again.tolist()}")
    if n > 1:
        rec.hit("words")


def bad_ints(case, rec):
    bits, usize, kind, k, value = case
    value %= 1 << bits
    arr = int_to_array_shim(value, "v", bits, usize)
    f = [lambda v: int_to_array_shim(v, "v", bits, usize),
         lambda v: object_to_int_shim(v, bits, "v", usize, (32, 64))]
    only = None
    if kind == "negative":
        v = -1 - value
    elif kind == "large":
        v = (1 << bits) + value
    elif kind == "word":
        v = arr.tolist()
        v[k % len(v)] = (1 << usize) + value
    elif kind == "negword":
        v = arr.tolist()
        v[k % len(v)] = -1 - k
    elif kind == "long":
        v, only = np.append(arr, arr.dtype.type(1)), None
    elif kind == "short":
        v, only = arr[:-1], 0
    elif kind == "fraction":
        v, only = (value % 2 ** 40) + 0.5, 0
    elif kind == "fractions":
        v, only = [1.5] * len(arr), 1
    elif kind == "signed":
        v, only = arr.astype(np.int16 if k % 2 else np.int64), 1
    elif kind == "2d":
        v = arr.reshape(1, -1)
    else:
        v = ["x"] * len(arr)
    for i, g in enumerate(f):
        if only is not None and i != only:
            continue
        try:
            r = g(v)
        except (ValueError, TypeError):
            continue
        fail(f"{('int_to_array', 'object_to_int')[i]}({v!r}, bits={bits}, size={usize}) gave {r!r}")
    rec.hit(kind)


def subs(tier):
    sizes = st.sampled_from([(64, 32), (64, 64), (128, 64), (128, 32), (256, 64), (256, 32), (512, 64), (None, 64),
                             (None, 32)])
    full = sizes.filter(lambda s: s[0] is not None)
    out = [Sub(n, lambda n=n: strategy(n), body_for(n), quick=800) for n in FUN]
    out += [Sub(f"large {n}", lambda n=n: strategy(n, LARGE), body_for(n), quick=12) for n in FUN]
    return out + [
        Sub("ints", lambda: st.builds(lambda s, v, f: (s[0], s[1], v, f), sizes,
                                      st.one_of(uint(64), uint(128), uint(512)),
                                      st.sampled_from(["array", "list", "tuple", "np", "strided", "ints"])),
            ints, quick=1500),
        Sub("ints/invalid", lambda: st.builds(
            lambda s, kind, k, v: (s[0], s[1], kind, k, v), full,
            st.sampled_from(["negative", "large", "word", "negword", "long", "short", "fraction", "fractions",
                             "signed", "2d", "text"]),
            st.integers(0, 20), st.one_of(uint(64), uint(512))), bad_ints, quick=1000)]
