"""multivariate_normal is an exact affine image of the stream's standard normals."""

import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from ..common import canon, seed_int
from ..core import Sub, check, fail
from ._big import seeded_matrix
from ._mv import BG, BGS, LEAD, SPELL, broadcastable, factor, matrix, out_shape, sizes_for, slight, slightly, spell, tolerated

RULE = ("One case: means and covariances of dimension 1-4 with leading shapes that broadcast (or not), "
        "in any spelling (dimension up to 40 and thousands of samples in the large cases), a size, a method, and generator seed; covariances are B B' for integer B, "
        "each in units of its own (singular ones included for svd and eigh), or indefinite. Oracle: the standard normals a numpy "
        "Generator draws from a twin, mapped by the matrix the same covariance and method show on known "
        "normals, which must have the covariance asked for. Non-trivial: more than one sample or a "
        "non-diagonal covariance.")


def dims():
    """(n, mean lead, cov lead) that broadcast"""
    ok = [(a, b) for a in LEAD for b in LEAD if broadcastable(a, b) is not None]
    return st.tuples(st.integers(1, 4), st.sampled_from([((), ())] * 9 + ok))


def params(method):
    def more(d):
        n, (ml, cl) = d
        lead = broadcastable(ml, cl)
        count = int(np.prod(cl))
        ncol = st.integers(1, n + 1)
        return st.tuples(
            st.just((n, ml, cl)), st.integers(0, 99),
            st.lists(ncol.flatmap(lambda m: matrix(n, m)), min_size=1, max_size=max(1, min(count, 3))),
            sizes_for(lead), SPELL, SPELL, st.sampled_from([[0]] * 3 + [[3], [-12], [-20, -19], [0, -12, 3], [-17, 0]]))
    return st.tuples(dims().flatmap(more), BG, seed_int())


def covs(mats, cl, n, method, powers):
    """Covariances in units that differ from one to the next"""
    out, unit = np.empty(cl + (n, n)), np.empty(cl)
    for i, loc in enumerate(np.ndindex(*cl)):
        b = np.array(mats[i % len(mats)], dtype=float)
        if method == "factor":
            a = np.zeros((n, n))
            a[:, :min(n, b.shape[1])] = b[:, :n]
            out[loc] = a
        else:
            out[loc] = b @ b.T + (i % 3) * np.eye(n)
            if method == "cholesky":
                out[loc] += np.eye(n)
        unit[loc] = 2.0 ** powers[i % len(powers)]
        out[loc] *= unit[loc] if method == "factor" else unit[loc] ** 2
    return out, unit


def means(seed, ml, n):
    return np.random.Generator(np.random.PCG64(seed)).integers(-8, 9, ml + (n,)) / 4.0


def body_for(method):
    def body(case, rec):
        ((n, ml, cl), mseed, mats, size, msp, csp, powers), bg, seed = case
        lead = broadcastable(ml, cl)
        mean, (cov, unit) = means(mseed, ml, n), covs(mats, cl, n, method, powers)
        given_mean, given_cov = spell(mean, msp), spell(cov, csp)
        text = f"multivariate_normal({given_mean!r}, {given_cov!r}, {size}, method={method!r})"
        before = repr(given_mean) + repr(given_cov)
        a, b = BGS[bg](seed), BGS[bg](seed)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            got = ExtendedGenerator(a).multivariate_normal(given_mean, given_cov, size, method=method)
        shp = out_shape(lead, size)
        check(got.shape == shp + (n,), f"{text}: shape {got.shape}, expected {shp + (n,)}")
        check(repr(given_mean) + repr(given_cov) == before, f"{text} changed its arguments")
        z = np.random.Generator(b).standard_normal(shp + (n,))
        check(canon(a.state) == canon(b.state), f"{text}: takes other than one normal per value")
        f = np.empty(cov.shape)
        for loc in np.ndindex(*cl):
            c, u = cov[loc], unit[loc]
            if method == "factor":
                f[loc] = c.T
            else:
                f[loc] = u * factor(lambda eg, k: eg.multivariate_normal(np.zeros(n), c, k, method=method) / u,
                                    n, (method, n, u, tuple(c.ravel())), c / u**2)
        want = mean + np.squeeze(np.matmul(z[..., None, :], f), axis=-2)
        tol = 1e-7 * (1 + np.abs(cov / unit[..., None, None]**2).max(initial=0))
        check((np.abs(got - want) <= tol * unit[..., None]).all(),
              lambda: f"{text} = {got.tolist()}, expected {want.tolist()}")
        if shp and z.size > 1 or n > 1:
            rec.hit(method)
        if lead:
            rec.label("broadcast")

    return body


def one_d():
    """The orientation of factor: a sample is mean + A z."""
    strat = st.tuples(st.integers(1, 4).flatmap(lambda n: matrix(n)), seed_int(), st.integers(1, 3))

    def body(case, rec):
        m, seed, k = case
        a = np.array(m, dtype=float)
        n = len(a)
        got = ExtendedGenerator(BGS["PCG64"](seed)).multivariate_normal(
            np.zeros(n), a, (k,), method="factor")
        z = np.random.Generator(BGS["PCG64"](seed)).standard_normal((k, n))
        want = np.array([a @ v for v in z])
        check(np.allclose(got, want, atol=1e-9), f"factor {m}: {got.tolist()} expected {want.tolist()}")
        if n > 1:
            rec.hit("factor orientation")

    return lambda: strat, body


def indefinite():
    mats = st.integers(2, 4).flatmap(lambda n: st.tuples(matrix(n), st.integers(1, 6)))
    strat = st.tuples(mats, st.sampled_from(["svd", "eigh", "cholesky"]),
                      st.sampled_from(["raise", "warn", "ignore"]), seed_int(),
                      st.sampled_from([None, 3, (2, 2)]), st.booleans())

    def body(case, rec):
        (m, shift), method, valid, seed, size, batch = case
        b = np.array(m, dtype=float)
        n = len(b)
        cov = b @ b.T - shift * np.eye(n)
        eig = np.linalg.eigvalsh(cov)
        if eig[0] > -0.1:  # as valid as it gets: no complaint unless it is not positive definite
            if eig[0] < 0.1:
                return
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                ExtendedGenerator(BGS["PCG64"](seed)).multivariate_normal(
                    np.zeros(n), cov, size, check_valid=valid, method=method)
            rec.label("definite")
            return
        text = f"multivariate_normal(cov={cov.tolist()}, check_valid={valid!r}, method={method!r})"
        mean = np.zeros(n)
        if batch:
            cov = np.array([np.eye(n), cov])
            size = None
        bg = BGS["PCG64"](seed)
        state = canon(bg.state)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                out = ExtendedGenerator(bg).multivariate_normal(mean, cov, size, check_valid=valid,
                                                                method=method)
            except ValueError:
                check(valid == "raise" or method == "cholesky", f"{text} raised")
                check(canon(bg.state) == state, f"{text}: drew before it was rejected")
                rec.hit("raised")
                return
        check(valid != "raise" and method != "cholesky", f"{text} accepted")
        warned = [x for x in w if issubclass(x.category, RuntimeWarning)]
        check(bool(warned) == (valid == "warn"), f"{text}: {len(warned)} warnings")
        check(out.shape[-1] == n, f"{text}: shape {out.shape}")
        rec.hit("warned" if warned else "ignored")

    return lambda: strat, body


def tolerance():
    strat = st.tuples(slightly(), st.sampled_from(["svd", "eigh"]), st.sampled_from(["raise", "warn", "ignore"]),
                      st.sampled_from([None, 3, (2, 2)]), st.booleans())

    def body(case, rec):
        near, method, valid, size, batch = case
        cov, tol, ok = slight(near)
        n = len(cov)
        bg = BGS["PCG64"](1)
        text = f"multivariate_normal(cov={cov.tolist()}, check_valid={valid!r}, tol={tol}, method={method!r})"
        full, size = (np.array([np.eye(n), cov]), None) if batch else (cov, size)
        tolerated(lambda: ExtendedGenerator(bg).multivariate_normal(np.zeros(n), full, size, valid, tol, method=method),
                  bg, ok, valid, text)
        rec.hit("tolerated" if ok else "reported")

    return lambda: strat, body


def mismatched():
    lead = st.sampled_from(LEAD)
    strat = st.tuples(st.integers(1, 3), st.integers(1, 3), lead, lead,
                      st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=4).map(tuple)),
                      st.sampled_from(["fit", "fit", "n", "square", "scalar mean", "vector cov", "valid"]))

    def body(case, rec):
        n, m, ml, cl, size, how = case
        both = broadcastable(ml, cl)
        mean, cov = np.zeros(ml + (n,)), np.broadcast_to(np.eye(n), cl + (n, n))
        kw = {}
        if how == "n":
            if n == m:
                return
            mean = np.zeros(ml + (m,))
        elif how == "square":
            if n == m:
                return
            cov = np.ones(cl + (n, m))
        elif how == "scalar mean":
            mean = 1.0
        elif how == "vector cov":
            cov = np.ones(n)
        elif how == "valid":
            kw["check_valid"] = "other"
        else:
            if both is not None:
                if size is None:
                    return
                k = len(both)
                tail = size[len(size) - k:] if k else ()
                if len(size) >= k and all(s == d or s == 1 or d == 1 for s, d in zip(tail, both)):
                    return
        bg = BGS["PCG64"](1)
        state = canon(bg.state)
        text = f"multivariate_normal(mean {np.shape(mean)}, cov {np.shape(cov)}, size {size}, {kw})"
        try:
            got = ExtendedGenerator(bg).multivariate_normal(mean, cov, size, **kw)
        except ValueError:
            check(canon(bg.state) == state, f"{text}: drew before it was rejected")
            rec.hit(how)
            return
        fail(f"{text} accepted: shape {got.shape}")

    return lambda: strat, body


def big(method):
    """More dimensions, samples and covariances than the others"""
    how = st.sampled_from(["array", "F", "strided", "readonly"])

    def more(d):
        n, (ml, cl), size, seeds = d
        return st.tuples(st.just((n, ml, cl)), st.integers(0, 99),
                         st.just([seeded_matrix(n, s) for s in seeds]), st.just(size), how, how,
                         st.sampled_from([[0], [3, 0]]))

    leads = st.one_of(
        st.tuples(st.just(((), ())), st.one_of(st.integers(1, 3000), st.sampled_from([(64, 65), (5000,), (2, 0)]))),
        st.tuples(st.sampled_from([((), (40,)), ((40,), ()), ((70,), (70,)), ((13, 1), (1, 7)), ((5000,), ()),
                                   ((0,), ()), ((), (0,)), ((0, 1), (3,))]), st.none()))
    return st.tuples(st.tuples(st.one_of(st.integers(5, 40), st.sampled_from([8, 16, 32, 33])), leads,
                               st.lists(st.integers(0, 9999), min_size=1, max_size=3)).map(
        lambda t: (t[0], t[1][0], t[1][1], t[2])).flatmap(more), BG, seed_int())


def subs(tier):
    return [Sub(f"large {m}", lambda m=m: big(m), body_for(m), quick=60)
            for m in ("svd", "eigh", "cholesky", "factor")] + [Sub(m, lambda m=m: params(m), body_for(m), quick=1500, shards=3)
            for m in ("svd", "eigh", "cholesky", "factor")] + [
        Sub("orientation", *one_d(), quick=400), Sub("indefinite", *indefinite(), quick=1500, shards=2),
        Sub("tolerance", *tolerance(), quick=400),
        Sub("mismatched", *mismatched(), quick=1500, shards=2)]


