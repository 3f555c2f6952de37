"""complex_normal and multivariate_complex_normal have the documented covariance structure, exactly."""

import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from ..common import canon, seed_int
from ..core import Sub, check, fail
from ._big import seeded_matrix
from ._mv import BG, BGS, LEAD, broadcastable, factor, matrix, out_shape, sizes_for, slight, slightly, spell, tolerated

RULE = ("One case: complex_normal with loc, gamma and relation given as scalars and arrays of any kind "
        "and shape (valid by construction from the variances and correlation of the parts, on the edge "
        "of validity, or invalid) and a size; or multivariate_complex_normal with Hermitian gamma and "
        "symmetric relation (dimensions up to 12, thousands of values) made from the covariance of real and imaginary parts. Oracle: the documented "
        "construction on the standard normals of a twin. Non-trivial: relation not zero or several "
        "samples.")

# variances of the parts are squares of a, b, so that limits are hit exactly
part = st.sampled_from([0, 0.25, 0.5, 1, 1, 1.5, 2, 3, 8])
rho = st.one_of(st.sampled_from([0, 0, 1, -1, 0.5, -0.75]), st.floats(-0.99, 0.99))
number = st.sampled_from(["py", "np", "c8", "0d", "0d-c8"])
shapes = st.sampled_from([(), (), (1,), (2,), (3,), (2, 1), (1, 3), (2, 3), (3, 1, 2), (0,)])


def scalar(v, how, real):
    """A spelling of one value."""
    if real and v.imag == 0:
        v = v.real
    wide = not isinstance(v, complex)
    if how == "np":
        return np.float64(v) if wide else np.complex128(v)
    if how == "c8" and complex(np.complex64(v)) == v:
        return np.complex64(v)
    if how == "0d":
        return np.array(v)
    if how == "0d-c8" and complex(np.complex64(v)) == v:
        return np.array(v, dtype=np.complex64)
    return v


def given_as(values, shp, how, real):
    a = np.array(values, dtype=complex).reshape(shp)
    if shp == ():
        return scalar(complex(a), how, real)
    if real and (a.imag == 0).all():
        a = a.real.copy()
    if how == "c8" and (a.astype(np.complex64) == a).all():
        return a.astype(np.complex64)
    return spell(a, {"py": "list", "np": "array", "0d": "strided", "0d-c8": "F"}.get(how, "array"))


def univariate():
    return st.tuples(shapes, shapes, shapes, st.lists(st.tuples(part, part, rho), min_size=1, max_size=6),
                     st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=1, max_size=4),
                     number, st.booleans(), st.sampled_from(["none", "same", "pre", "fill", "scalar"]),
                     st.integers(1, 4), BG, seed_int())


def cn_body(case, rec):
    ls, gs, rs, parts, locs, how, real, sizing, pre, bg, seed = case
    # one gamma goes with one relation: values differ along the axes both have
    common = broadcastable(gs, rs)
    lead = broadcastable(ls, gs, rs)
    if lead is None:
        return
    if gs != rs:
        parts = parts[:1]
    cnt = max(int(np.prod(s)) for s in (common, gs, rs))
    p = [parts[i % len(parts)] for i in range(max(cnt, 1))]
    vr = np.array([a * a for a, _, _ in p])
    vi = np.array([b * b for _, b, _ in p])
    cov = np.array([r * a * b for a, b, r in p])
    n_g, n_r = int(np.prod(gs)), int(np.prod(rs))
    gamma = (vr + vi)[:n_g]
    rel = (vr - vi + 2j * cov)[:n_r]
    loc = [complex(x, y) / 4 for x, y in locs]
    loc = [loc[i % len(loc)] for i in range(int(np.prod(ls)))]
    if sizing == "none":
        size = None
    elif sizing == "pre":
        size = (pre,) + lead
    elif sizing == "fill" and lead and 0 not in lead:
        size = tuple(pre if d == 1 else d for d in lead)
    elif sizing == "scalar" and lead == ():
        size = pre - 1
    else:
        size = lead
    ga, ra, la = (given_as(gamma, gs, how, real), given_as(rel, rs, how, real), given_as(loc, ls, how, real))
    text = f"complex_normal({la!r}, {ga!r}, {ra!r}, {size})"
    a, b = BGS[bg](seed), BGS[bg](seed)
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        got = ExtendedGenerator(a).complex_normal(la, ga, ra, size)
    shp = lead if size is None else (size,) if isinstance(size, int) else size
    if shp == () and size is None:
        check(type(got) is complex, f"{text} is a {type(got)}")
    check(np.shape(got) == shp and np.asarray(got).dtype == complex,
          f"{text}: shape {np.shape(got)}, expected {shp}")
    z = np.random.Generator(b).standard_normal(shp + (2,))
    check(canon(a.state) == canon(b.state), f"{text}: takes other than two normals per value")
    gb, rb = np.reshape(gamma, gs), np.reshape(rel, rs)
    vr, vi, c = .5 * (gb + rb.real), .5 * (gb - rb.real), .5 * rb.imag + 0 * gb
    both = (vr > 0) & (vi > 0)
    r = np.where(both, c / np.sqrt(np.where(both, vr * vi, 1)), 0)
    x = np.sqrt(vr) * z[..., 0]
    y = np.sqrt(vi) * (r * z[..., 0] + np.sqrt(np.maximum(1 - r * r, 0)) * z[..., 1])
    want = np.reshape(loc, ls) + x + 1j * y
    check(np.allclose(got, want, rtol=0, atol=1e-9), f"{text} = {got!r}, expected {want!r}")
    if np.any(rel) or np.size(got) > 1:
        rec.hit("arrays" if lead else "scalar")


def cn_invalid():
    bad = st.sampled_from(["Im(gamma)", "real", "imag", "rho", "degenerate"])
    strat = st.tuples(st.tuples(part, part, rho), bad, st.integers(1, 40), st.booleans(),
                      st.sampled_from([(), (1,), (3,), (2, 2)]), st.booleans(), st.integers(0, 99),
                      st.sampled_from([None, 1, 5]), st.sampled_from(["both", "gamma", "relation"]))

    def body(case, rec):
        (a, b, r), how, by, neg, shp, with_size, where, size, which = case
        vr, vi, c = a * a, b * b, r * a * b
        eps = by / 16 * (-1 if neg else 1)
        im = 0.0
        if how == "Im(gamma)":
            im = eps
        elif how == "real":
            vr, c = -by / 16, 0
        elif how == "imag":
            vi, c = -by / 16, 0
        elif how == "rho":
            c = (a * b + by / 16) * (-1 if neg else 1)
        else:
            vr, vi, c = [(0, vi), (vr, 0), (0, 0)][by % 3] + (eps,)
        gamma, rel = complex(vr + vi, im), complex(vr - vi, 2 * c)
        if shp:
            n = int(np.prod(shp))
            g, q = np.ones(n, dtype=complex), np.zeros(n, dtype=complex)
            g[where % n], q[where % n] = gamma, rel
            g, q = g.reshape(shp), q.reshape(shp)
            # a scalar beside an array
            if which == "gamma" and n == 1:
                q = rel
            elif which == "relation" and n == 1:
                g = gamma
            sz = ((size or 1),) + shp if with_size else None
        else:
            g, q = gamma, rel
            sz = size
        bg = BGS["PCG64"](3)
        state = canon(bg.state)
        text = f"complex_normal(0, {g!r}, {q!r}, {sz})"
        try:
            got = ExtendedGenerator(bg).complex_normal(0, g, q, sz)
        except ValueError:
            check(canon(bg.state) == state, f"{text}: drew before it was rejected")
            rec.hit(how)
            return
        fail(f"{text} accepted: {got!r}")

    return lambda: strat, body


def cn_mismatch():
    strat = st.tuples(shapes, shapes, shapes, st.lists(st.integers(0, 4), max_size=3).map(tuple),
                      st.booleans())

    def body(case, rec):
        ls, gs, rs, size, use = case
        lead = broadcastable(ls, gs, rs)
        if lead is not None:
            if not use:
                return
            if broadcastable(lead, size) == size:
                return
        bg = BGS["PCG64"](3)
        state = canon(bg.state)
        text = f"complex_normal({ls}, {gs}, {rs}, size {size if use else None})"
        try:
            got = ExtendedGenerator(bg).complex_normal(np.zeros(ls), np.ones(gs), np.zeros(rs),
                                                       size if use else None)
        except ValueError:
            check(canon(bg.state) == state, f"{text}: drew before it was rejected")
            rec.hit("shapes")
            return
        fail(f"{text} accepted: shape {np.shape(got)}")

    return lambda: strat, body


# ---------------------------------------------------------------- multivariate
def multi(method):
    def more(d):
        n, (ll, gl, rl) = d
        lead = broadcastable(ll, gl, rl)
        return st.tuples(st.just((n, ll, gl, rl)), matrix(2 * n), matrix(2 * n), matrix(n), matrix(n),
                         st.integers(0, 99), sizes_for(lead), number,
                         st.sampled_from(["both", "both", "both", "no relation", "no gamma", "none"]))

    ok = [(a, b, c) for a in LEAD for b in LEAD for c in LEAD if broadcastable(a, b, c) is not None]
    plain = st.tuples(st.integers(1, 3), st.just(((), (), ())))
    return st.tuples(st.one_of(plain, st.tuples(st.integers(1, 3), st.sampled_from(ok))).flatmap(more),
                     BG, seed_int())


def gamma_relation(s):
    n = len(s) // 2
    xx, xy, yx, yy = s[:n, :n], s[:n, n:], s[n:, :n], s[n:, n:]
    return xx + yy + 1j * (yx - xy), xx - yy + 1j * (yx + xy)


def stacked(gamma, rel):
    """Covariance of (X1, Y1, X2, Y2, ...)."""
    n = len(gamma)
    s = np.empty((2 * n, 2 * n))
    s[0::2, 0::2] = .5 * (gamma + rel).real
    s[0::2, 1::2] = .5 * (rel - gamma).imag
    s[1::2, 0::2] = .5 * (gamma + rel).imag
    s[1::2, 1::2] = .5 * (gamma - rel).real
    return s


def multi_body(method):
    def body(case, rec):
        ((n, ll, gl, rl), m1, m2, h, c, lseed, size, how, which), bg, seed = case
        if which in ("no gamma", "none"):
            gl = ()
        if which in ("no relation", "none"):
            rl = ()
        lead = broadcastable(ll, gl, rl)
        b = np.array(m1, dtype=float)
        s = b @ b.T
        if method == "cholesky":
            s = s + np.eye(2 * n)
        if gl == rl:
            k = int(np.prod(gl))
            pairs = [gamma_relation(s + (i % 3) * np.eye(2 * n)) for i in range(k)]
            gamma = np.array([p[0] for p in pairs]).reshape(gl + (n, n))
            rel = np.array([p[1] for p in pairs]).reshape(rl + (n, n))
        else:  # every gamma goes with every relation: gamma dominates
            a2 = np.array(h, dtype=float)
            herm = a2 + a2.T + 1j * (a2 - a2.T)
            sym = np.array(c) + np.array(c).T + 1j * (np.array(m2)[:n, :n] + np.array(m2)[:n, :n].T)
            kg, kr = int(np.prod(gl)), int(np.prod(rl))
            gamma = np.array([herm * (i % 2) + (100 + i) * np.eye(n) for i in range(kg)]).reshape(gl + (n, n))
            rel = np.array([sym * (i % 3 - 1) for i in range(kr)]).reshape(rl + (n, n))
        if which == "no relation":
            rel = np.zeros((n, n))
            s0 = b[:n, :n] @ b[:n, :n].T + np.eye(n) + 1j * (b[:n, :n] - b[:n, :n].T)
            gamma = np.broadcast_to(s0 + 40 * np.eye(n), gl + (n, n)).copy()
        elif which == "no gamma":
            gamma = np.eye(n)
            rel = np.broadcast_to((np.array(c) + np.array(c).T) / 128.0
                                  + 1j * (b[:n, :n] + b[:n, :n].T) / 128.0, rl + (n, n)).copy()
        elif which == "none":
            gamma, rel = np.eye(n), np.zeros((n, n))
        loc = np.random.Generator(np.random.PCG64(lseed)).integers(-8, 9, ll + (n, 2)) / 4.0
        loc = loc[..., 0] + 1j * loc[..., 1]
        kw = {}
        if which in ("both", "no relation"):
            kw["gamma"] = given_as(gamma, gamma.shape, how, True)
        if which in ("both", "no gamma"):
            kw["relation"] = given_as(rel, rel.shape, how, True)
        la = given_as(loc, loc.shape, how, True)
        text = f"multivariate_complex_normal({la!r}, {kw}, size={size}, method={method!r})"
        x, y = BGS[bg](seed), BGS[bg](seed)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            got = ExtendedGenerator(x).multivariate_complex_normal(la, size=size, method=method, **kw)
        shp = out_shape(lead, size)
        check(got.shape == shp + (n,) and got.dtype == complex,
              f"{text}: shape {got.shape} {got.dtype}, expected {shp + (n,)}")
        z = np.random.Generator(y).standard_normal(shp + (2 * n,))
        check(canon(x.state) == canon(y.state), f"{text}: takes other than two normals per value")
        cl = broadcastable(gl, rl)
        gb, rb = np.broadcast_to(gamma, cl + (n, n)), np.broadcast_to(rel, cl + (n, n))
        f = np.empty(cl + (2 * n, 2 * n))
        top = 0
        for i in np.ndindex(*cl):
            g, r = gb[i], rb[i]
            want = stacked(g, r)
            top = max(top, np.abs(want).max())

            def draw(eg, k, g=g, r=r):
                out = eg.multivariate_complex_normal(np.zeros(n), g, r, k, method=method)
                return np.stack([out.real, out.imag], axis=-1).reshape(k, 2 * n)

            f[i] = factor(draw, 2 * n, (method, n, tuple(g.ravel()), tuple(r.ravel())), want)
        v = np.squeeze(np.matmul(z[..., None, :], f), axis=-2)
        want = loc + v[..., 0::2] + 1j * v[..., 1::2]
        check(np.allclose(got, want, rtol=0, atol=1e-7 * (1 + top)),
              lambda: f"{text} = {got.tolist()}, expected {want.tolist()}")
        if np.any(rel) or shp:
            rec.hit(which)
        if lead:
            rec.label("broadcast")

    return body


def big_univariate():
    shape = st.sampled_from([(), (1,), (2000,), (2000,), (40, 50), (40, 1), (50,)])
    return st.tuples(shape, shape, shape, st.lists(st.tuples(part, part, rho), min_size=1, max_size=6),
                     st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=1, max_size=4),
                     number, st.booleans(), st.sampled_from(["none", "same", "pre", "fill", "scalar"]),
                     st.sampled_from([2, 3, 7000, 4098]), BG, seed_int()).filter(
        lambda t: not (t[7] == "pre" and t[8] > 9 and broadcastable(*t[:3]) != ()))


def big_multi():
    def more(d):
        n, leads, seeds, size = d
        m = [seeded_matrix(k, s) for k, s in zip((2 * n, 2 * n, n, n), seeds)]
        return st.tuples(st.just((n,) + leads), *map(st.just, m), st.integers(0, 99),
                         st.just(size if broadcastable(*leads) == () else None), number,
                         st.sampled_from(["both", "both", "both", "no relation", "no gamma", "none"]))

    leads = st.sampled_from([((), (), ())] * 3 + [((), (25,), (25,)), ((400,), (), ()), ((5, 1), (4,), (4,))])
    return st.tuples(st.tuples(st.integers(4, 12), leads, st.tuples(*[st.integers(0, 9999)] * 4),
                               st.sampled_from([None, 700, (1500,), (20, 33)])).flatmap(more), BG, seed_int())


POWER = st.sampled_from([0, 0, 1, -4, -12, -20, -21, 6])


def units():
    """The variates scale with the unit of every element's parameters."""
    def more(n):
        return st.tuples(
            st.just(n), st.lists(st.tuples(matrix(2 * n) if n else st.tuples(part, part, rho), POWER), min_size=1,
                                 max_size=5), st.sampled_from(["svd", "eigh", "cholesky"]), st.integers(0, 3),
            st.booleans())

    strat = st.tuples(st.integers(0, 3).flatmap(more), BG, seed_int())

    def body(case, rec):
        (n, elements, method, pre, column), bg, seed = case
        u = np.array([2.0 ** k for _, k in elements])
        if n == 0:
            v = np.array([(a * a, b * b, r * a * b) for (a, b, r), _ in elements])
            gamma, rel = v[:, 0] + v[:, 1], v[:, 0] - v[:, 1] + 2j * v[:, 2]
        else:
            pairs = [gamma_relation(np.array(m, dtype=float) @ np.array(m, dtype=float).T
                                    + (np.eye(2 * n) if method == "cholesky" else 0)) for m, _ in elements]
            gamma, rel = np.array([g for g, _ in pairs]), np.array([r for _, r in pairs])
            u = u[:, None]
        size = None
        if column:
            gamma, rel, u = gamma[:, None], rel[:, None], u[:, None]
        lead = (len(elements), 1) if column else (len(elements),)
        if pre:
            size = (pre,) + lead
        out = []
        for s in (1.0, u):
            eg = ExtendedGenerator(BGS[bg](seed))
            w = s if n == 0 else np.asarray(s)[..., None]
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                if n == 0:
                    out.append(eg.complex_normal(0, gamma * w**2, rel * w**2, size) / s)
                else:
                    out.append(eg.multivariate_complex_normal(np.zeros(n), gamma * w**2, rel * w**2, size,
                                                              method=method) / s)
        check(np.allclose(*out, rtol=1e-6, atol=1e-6),
              lambda: f"parameters {gamma.tolist()}, {rel.tolist()} ({method}): in units {u.ravel().tolist()} the "
                      f"variates are {out[1].tolist()}, not {out[0].tolist()}")
        if len(elements) > 1:
            rec.hit(method if n else "univariate")

    return lambda: strat, body


def multi_invalid():
    strat = st.tuples(st.integers(1, 3), matrix(3), st.integers(1, 40),
                      st.sampled_from(["gamma skew", "relation skew", "indefinite", "shape gamma",
                                       "shape relation", "leading", "scalar loc"]),
                      st.sampled_from(["raise", "warn", "ignore"]), st.sampled_from(["svd", "eigh"]),
                      st.booleans())

    def body(case, rec):
        n, m, by, how, valid, method, batch = case
        loc, gamma, rel = np.zeros(n), 4 * np.eye(n, dtype=complex), np.zeros((n, n), dtype=complex)
        if how == "gamma skew":
            gamma[-1, 0] += 1j * by / 4 if n == 1 else by / 4
        elif how == "relation skew":
            if n == 1:
                return
            rel[-1, 0] += by / 32
        elif how == "indefinite":
            rel[0, 0] = 4 + by / 4
        elif how == "shape gamma":
            gamma = np.eye(n + 1)
        elif how == "shape relation":
            rel = np.zeros((n + 1, n + 1))
        elif how == "leading":
            gamma, rel = np.broadcast_to(gamma, (2, n, n)), np.broadcast_to(rel, (3, n, n))
        else:
            loc = 0.0
        if batch and how in ("gamma skew", "indefinite"):
            gamma = np.array([4 * np.eye(n) + 0j, gamma])
            if how == "indefinite":
                rel = np.array([0 * rel, rel])
        bg = BGS["PCG64"](3)
        state = canon(bg.state)
        text = f"multivariate_complex_normal({how} {gamma!r} {rel!r}, check_valid={valid!r}, {method})"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                got = ExtendedGenerator(bg).multivariate_complex_normal(
                    loc, gamma, rel, check_valid=valid, method=method)
            except ValueError:
                check(how != "indefinite" or valid == "raise", f"{text} raised")
                check(canon(bg.state) == state, f"{text}: drew before it was rejected")
                rec.hit(how)
                return
        check(how == "indefinite" and valid != "raise", f"{text} accepted: {got!r}")
        warned = [x for x in w if issubclass(x.category, RuntimeWarning)]
        check(bool(warned) == (valid == "warn"), f"{text}: {len(warned)} warnings")
        rec.hit(valid)

    return lambda: strat, body


def tolerance():
    strat = st.tuples(slightly(), st.sampled_from(["svd", "eigh"]), st.sampled_from(["raise", "warn", "ignore"]),
                      st.sampled_from(["real", "imaginary"]))

    def body(case, rec):
        near, method, valid, part = case
        m, tol, ok = slight(near)
        n = len(m)
        bg = BGS["PCG64"](1)
        # the other part has the identity
        gamma, rel = np.eye(n) + m, (m - np.eye(n)) * (1 if part == "real" else -1)
        text = (f"multivariate_complex_normal({gamma.tolist()}, {rel.tolist()}, check_valid={valid!r}, tol={tol}, "
                f"method={method!r})")
        tolerated(lambda: ExtendedGenerator(bg).multivariate_complex_normal(
            np.zeros(n), gamma, rel, check_valid=valid, tol=tol, method=method), bg, ok, valid, text)
        rec.hit("tolerated" if ok else "reported")

    return lambda: strat, body


def subs(tier):
    return [Sub("complex_normal", univariate, cn_body, quick=3000, shards=4),
            Sub("complex_normal/invalid", *cn_invalid(), quick=1000),
            Sub("complex_normal/shapes", *cn_mismatch(), quick=600)] + [
        Sub(f"multivariate/{m}", lambda m=m: multi(m), multi_body(m), quick=800, shards=2)
        for m in ("svd", "eigh", "cholesky")] + [
        Sub("large", big_univariate, cn_body, quick=150)] + [
        Sub(f"large {m}", big_multi, multi_body(m), quick=40) for m in ("svd", "eigh", "cholesky")] + [
        Sub("units", *units(), quick=1500, shards=2), Sub("tolerance", *tolerance(), quick=400),
        Sub("multivariate/invalid", *multi_invalid(), quick=600)]
