"""Shared parts of the multivariate checks."""

import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator, MT19937, PCG64, Philox, SFC64

from ..common import canon
from ..core import check

BGS = {"PCG64": PCG64, "MT19937": MT19937, "Philox": Philox, "SFC64": SFC64}
BG = st.sampled_from(sorted(BGS))
small = st.integers(-3, 3)


def matrix(n, m=None):
    """Integer matrix."""
    return st.lists(st.lists(small, min_size=m or n, max_size=m or n), min_size=n, max_size=n)


def spell(a, how):
    """One array in several spellings (all exactly equal)."""
    a = np.asarray(a)
    if how == "list":
        return a.tolist()
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == "int" and a.dtype.kind == "f" and (a == np.round(a)).all():
        return a.astype(np.int64)
    if how == "f4" and a.dtype.kind == "f" and (a == a.astype(np.float32)).all():
        return a.astype(np.float32)
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


SPELL = st.sampled_from(["array", "array", "list", "F", "strided", "int", "f4", "readonly"])
LEAD = [(), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3), (1, 1, 2), (2, 1, 3)]


def broadcastable(*shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        return None


def sizes_for(lead):
    """Legal sizes for parameters whose leading shapes broadcast to `lead`."""
    opts = [None]
    same = [st.sampled_from(sorted({1, d})) for d in lead]
    tail = st.tuples(*same)
    if lead:
        opts.append(tail)
        for pre in [(4,), (1,), (2, 3), (1, 1), (0,)]:
            opts.append(tail.map(lambda t, pre=pre: pre + t))
    else:
        opts += [(), (1,), (4,), (2, 3), (1, 2), (1, 1), (0,), (3, 0), 1, 5, 0, np.int64(3)]
        opts = [o if isinstance(o, st.SearchStrategy) else st.just(o) for o in opts]
    return st.one_of(*[o if isinstance(o, st.SearchStrategy) else st.just(o) for o in opts])


def out_shape(lead, size):
    if size is None:
        return lead
    size = (int(size),) if np.ndim(size) == 0 and not isinstance(size, tuple) else tuple(size)
    k = len(lead)
    pre, tail = (size[:len(size) - k], size[len(size) - k:]) if k else (size, ())
    return pre + tuple(d if s == 1 else s for s, d in zip(tail, lead))


_cache = {}


def factor(draw, n, key, want, tol=1e-7):
    """The linear map z -> z @ F a zero-mean draw applies, learnt from many draws of known z.

    Checks that it is linear and has F.T @ F == want."""
    if key in _cache:
        return _cache[key]
    k = 3 * n + 6
    z = np.random.Generator(PCG64(12345)).standard_normal((k, n))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = draw(ExtendedGenerator(PCG64(12345)), k)
    check(x.shape == (k, n), f"{key}: {x.shape} for {k} draws")
    f = np.linalg.lstsq(z, x, rcond=None)[0]
    scale = 1 + np.abs(x).max()
    check(np.allclose(z @ f, x, rtol=0, atol=tol * scale),
          f"{key}: draws are not a linear map of the standard normals")
    got = f.T @ f
    check(np.allclose(got, want, rtol=0, atol=tol * (1 + np.abs(want).max())),
          f"{key}: draws have covariance {got.tolist()}, asked for {np.asarray(want).tolist()}")
    if len(_cache) > 500:
        _cache.clear()
    _cache[key] = f
    return f


def slightly():
    """A symmetric matrix with one eigenvalue -delta and a tolerance far above or below delta"""
    return st.integers(1, 4).flatmap(lambda n: st.tuples(
        st.lists(st.integers(-9, 9), min_size=n, max_size=n).filter(any), st.integers(1, 9),
        st.sampled_from([1e-3, 1e-4, 1e-5, 1e-6]), st.booleans()))


def slight(case):
    v, k, delta, ok = case
    v = np.array(v, dtype=float)
    p = np.outer(v, v) / (v @ v)
    return k * (np.eye(len(v)) - p) - delta * p, delta * 100 if ok else delta / 100, ok


def tolerated(call, bg, ok, valid, what):
    """Silently accepted, or reported as check_valid asks, a rejected call drawing nothing"""
    state = canon(bg.state)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            call()
        except ValueError as e:
            check(valid == "raise" and not ok, f"{what} raised {e!r}")
            check(canon(bg.state) == state, f"{what}: drew before it was rejected")
            return
    check(ok or valid != "raise", f"{what} accepted")
    warned = [x for x in w if issubclass(x.category, RuntimeWarning)]
    check(bool(warned) == (valid == "warn" and not ok), f"{what}: {len(warned)} warnings")
