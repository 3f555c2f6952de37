"""Wishart draws are exact functions of the stream with the documented scale."""

import warnings

from hypothesis import strategies as st
import numpy as np
from randomgen import ExtendedGenerator

from ..common import canon, seed_int
from ..core import Sub, check
from ._big import seeded_matrix
from ._mv import BG, BGS, LEAD, SPELL, broadcastable, matrix, slight, slightly, spell, tolerated

BUDGET = 6

RULE = ("One case: standard_wishart or wishart with degrees of freedom below, at and above the dimension, "
        "scalar or array df and scale (integer matrices, singular ones included) in any spelling, a "
        "size, a method and rank (dimensions up to 20 and hundreds of samples in the large cases). Oracle: the Bartlett decomposition (or inner product, df < dim) of a "
        "twin's chi-square and normal draws; A W A' itself for method factor, otherwise the spectrum of "
        "inv(scale) W, which is W's for exactly the A with A A' = scale; range, rank and mean for "
        "singular scales. Non-trivial: dimension at least 2.")


def standard(gen, df, dim, num):
    """num standard Wishart variates (not rescaled) from a numpy Generator."""
    out = np.empty((num, dim, dim))
    for k in range(num):
        if df < dim:
            n = gen.standard_normal((df, dim))
        else:
            n = np.zeros((dim, dim))
            for i in range(dim):
                n[i, i] = np.sqrt(gen.chisquare(df - i))
                for j in range(i + 1, dim):
                    n[i, j] = gen.standard_normal()
        out[k] = n.T @ n
    return out


sizes = st.sampled_from([None, None, (), (1,), (3,), (2, 2), (1, 2), (0,), (2, 0), 1, 4, 0, "np3", [2], [2, 2]])


def sized(s):
    if s == "np3":
        return np.int64(3), (3,)
    if s is None:
        return None, ()
    return s, (s,) if isinstance(s, int) else tuple(s)


def std_body(case, rec):
    df, dim, sz, rescale, bg, seed = case
    size, shp = sized(sz)
    a, b = BGS[bg](seed), BGS[bg](seed)
    text = f"standard_wishart({df}, {dim}, {size!r}, rescale={rescale})"
    kw = {} if rescale is None else {"rescale": rescale}
    got = ExtendedGenerator(a).standard_wishart(df, dim, size, **kw)
    check(got.shape == shp + (dim, dim), f"{text}: shape {got.shape}")
    want = standard(np.random.Generator(b), df, dim, int(np.prod(shp)))
    want = want.reshape(got.shape) / (1 if rescale is False else df)
    check(canon(a.state) == canon(b.state), f"{text}: consumes another number of draws")
    check(np.allclose(got, want, rtol=1e-9, atol=1e-9), f"{text} = {got.tolist()}, expected {want.tolist()}")
    check((got == np.swapaxes(got, -1, -2)).all(), f"{text} is not symmetric")
    if dim > 1:
        rec.hit("df < dim" if df < dim else "df >= dim")


SCALES = [s for s in LEAD if len(s) < 3]


def cases(method):
    def more(d):
        n, (dl, sl) = d
        lead = broadcastable(dl, sl)
        scalar = dl == () and sl == ()
        pre = [(), (1,), (3,), (2, 2), (0,)]
        if scalar:
            sizes_ = sizes
        else:
            full = [p + lead for p in pre]
            sizes_ = st.sampled_from([None, *full, *[list(f) for f in full],
                                      *([lead[0]] if len(lead) == 1 else [])])
        return st.tuples(st.just((n, dl, sl)), st.lists(st.one_of(st.integers(1, n + 2), st.integers(1, 40)),
                                                        min_size=1, max_size=6),
                         st.lists(matrix(n), min_size=1, max_size=3), sizes_, SPELL, SPELL)

    ok = [(a, b) for a in LEAD for b in SCALES if broadcastable(a, b) is not None]
    pick = st.sampled_from([((), ())] * 6 + ok)
    return st.tuples(st.tuples(st.integers(1, 4), pick).flatmap(more), BG, seed_int())


def body_for(method):
    def body(case, rec):
        ((n, dl, sl), dfs, mats, sz, dsp, ssp), bg, seed = case
        lead = broadcastable(dl, sl)
        df = np.array([dfs[i % len(dfs)] for i in range(int(np.prod(dl)))]).reshape(dl)
        scale = np.empty(sl + (n, n))
        for i, loc in enumerate(np.ndindex(*sl)):
            m = np.array(mats[i % len(mats)], dtype=float)
            scale[loc] = m if method == "factor" else m @ m.T + (1 + i % 3) * np.eye(n)
        size, shp = sized(sz)
        if size is None:
            shp = lead
        given_df = int(df) if dl == () and dsp != "array" else spell(df, dsp)
        given = spell(scale, ssp)
        text = f"wishart({given_df!r}, {given!r}, {size!r}, method={method!r})"
        before = repr(given_df) + repr(given)
        a, b = BGS[bg](seed), BGS[bg](seed)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            got = ExtendedGenerator(a).wishart(given_df, given, size, method=method)
        check(got.shape == shp + (n, n), f"{text}: shape {got.shape}, expected {shp + (n, n)}")
        check(repr(given_df) + repr(given) == before, f"{text} changed its arguments")
        gen = np.random.Generator(b)
        dfb = np.broadcast_to(df, lead)
        scb = np.broadcast_to(scale, lead + (n, n))
        blocks = int(np.prod(shp[:len(shp) - len(lead)]))
        if not lead:
            std = standard(gen, int(df), n, blocks).reshape(shp + (n, n))
        else:
            std = np.empty((blocks,) + lead + (n, n))
            for loc in np.ndindex(*lead):
                std[(slice(None),) + loc] = standard(gen, int(dfb[loc]), n, blocks)
            std = std.reshape(shp + (n, n))
        check(canon(a.state) == canon(b.state), f"{text}: consumes another number of draws")
        scb = np.broadcast_to(scb, shp + (n, n))
        big = 1 + np.abs(std).max(initial=0) * (1 + np.abs(scale).max()) ** (2 if method == "factor" else 1)
        check(np.allclose(got, np.swapaxes(got, -1, -2), rtol=0, atol=1e-9 * big), f"{text}: not symmetric")
        if method == "factor":
            want = scb @ std @ np.swapaxes(scb, -1, -2)
            check(np.allclose(got, want, rtol=0, atol=1e-9 * big),
                  lambda: f"{text} = {got.tolist()}, expected {want.tolist()}")
        else:
            # symmetric form of inv(scale) W
            w, v = np.linalg.eigh(scb)
            half = v / np.sqrt(w)[..., None, :] @ np.swapaxes(v, -1, -2)
            e1 = np.linalg.eigvalsh(half @ got @ half)
            e2 = np.linalg.eigvalsh(std)
            check(np.allclose(e1, e2, rtol=1e-6, atol=1e-7 * big),
                  lambda: f"{text}: spectrum of inv(scale) W is {e1.tolist()}, expected {e2.tolist()}")
        if n > 1:
            rec.hit("broadcast" if lead else "scalar")

    return body


def units():
    """A variate scales with the unit of its own scale matrix."""
    strat = st.tuples(st.integers(1, 4).flatmap(lambda n: st.lists(st.tuples(
        matrix(n), st.sampled_from([0, 0, 1, -4, -12, -20, -21, 6]), st.integers(1, n + 3)), min_size=1, max_size=5)),
        st.sampled_from(["svd", "eigh", "cholesky", "factor"]), st.integers(0, 2), st.booleans(), BG, seed_int())

    def body(case, rec):
        elements, method, pre, column, bg, seed = case
        m = np.array([e[0] for e in elements], dtype=float)
        n = m.shape[-1]
        if method != "factor":
            m = m @ np.swapaxes(m, -1, -2) + np.eye(n)
        u = np.array([2.0 ** e[1] for e in elements])[:, None, None]
        df = np.array([e[2] for e in elements])
        if column:
            m, u, df = m[:, None], u[:, None], df[:, None]
        lead = df.shape
        size = (pre,) + lead if pre else None
        out = []
        for s in (1.0, u):
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                out.append(ExtendedGenerator(BGS[bg](seed)).wishart(
                    df, m * (s if method == "factor" else s**2), size, method=method) / s**2)
        check(np.allclose(*out, rtol=1e-6, atol=1e-6),
              lambda: f"scales {m.tolist()} ({method}): in units {u.ravel().tolist()} the variates are "
                      f"{out[1].tolist()}, not {out[0].tolist()}")
        if len(elements) > 1:
            rec.hit(method)

    return lambda: strat, body


def singular():
    """Scales of rank r: draws stay in the range, with rank min(r, df) and mean df*scale."""
    strat = st.integers(2, 4).flatmap(lambda n: st.integers(1, n - 1).flatmap(lambda r: st.tuples(
        matrix(n, r), st.integers(1, 8), st.sampled_from(["svd", "eigh", "cholesky"]), seed_int(),
        st.booleans())))

    def body(case, rec):
        m, df, method, seed, array = case
        b = np.array(m, dtype=float)
        scale = b @ b.T
        n = len(scale)
        r = np.linalg.matrix_rank(b)
        if r == 0 or r == n:
            return
        num = 4000
        text = f"wishart({df}, {scale.tolist()}, rank={r}, method={method!r})"
        given = scale[None] if array else scale
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            got = ExtendedGenerator(BGS["PCG64"](seed)).wishart(
                df, given, (num, 1) if array else num, rank=r, method=method).reshape((num, n, n))
        top = np.abs(scale).max()
        w, v = np.linalg.eigh(scale)
        null = v[:, :n - r]
        check(np.abs(got @ null).max() < 1e-5 * (1 + np.abs(got).max()), f"{text} leaves the range of scale")
        if df >= r:
            e = np.linalg.eigvalsh(got[:50])[:, n - r]
            check(np.median(e) > 1e-4 * w[n - r] / df, f"{text}: the rank is too low")
        # E W = df S, Var W_ij = df (S_ij^2 + S_ii S_jj)
        sd = np.sqrt(df * (scale**2 + np.outer(np.diag(scale), np.diag(scale))) / num)
        check((np.abs(got.mean(0) - df * scale) <= 8 * sd + 1e-6 * top).all(),
              f"{text}: mean {got.mean(0).tolist()}, expected {(df * scale).tolist()}")
        rec.hit(method)

    return lambda: strat, body


def rejected():
    strat = st.tuples(st.integers(1, 3), st.sampled_from(
        ["df", "df array", "no df", "empty", "vector", "square", "size", "indefinite", "nan"]),
        st.integers(-3, 0), st.sampled_from(["svd", "eigh"]), st.sampled_from(["raise", "warn", "ignore"]),
        st.booleans())

    def body(case, rec):
        n, how, bad, method, valid, array = case
        df, scale, size = 5, np.eye(n), None
        if how == "df":
            df = bad
        elif how == "df array":
            df = [3, 5, bad, 7]
        elif how == "no df":
            df = []
        elif how == "empty":
            scale = np.empty((0, n, n))
        elif how == "vector":
            scale = np.ones(n)
        elif how == "square":
            scale = np.ones((n, n + 1))
        elif how == "size":
            df, size = [3, 5, 7], [2, (3, 2), (1,), (3, 1)][-bad]
        elif how == "indefinite":
            scale = np.eye(n)
            scale[-1, -1] = bad - 1
            if array:
                scale = np.array([np.eye(n), scale])
        else:
            df = float("nan")
        bg = BGS["PCG64"](1)
        state = canon(bg.state)
        text = f"wishart({df}, {scale!r}, {size}, method={method!r}, check_valid={valid!r})"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                got = ExtendedGenerator(bg).wishart(df, scale, size, method=method, check_valid=valid)
            except ValueError:
                check(how != "indefinite" or valid == "raise", f"{text} raised")
                check(canon(bg.state) == state, f"{text}: drew before it was rejected")
                rec.hit(how)
                return
        check(how == "indefinite" and valid != "raise", f"{text} accepted: {got!r}")
        warned = [x for x in w if issubclass(x.category, RuntimeWarning)]
        check(bool(warned) == (valid == "warn"), f"{text}: {len(warned)} warnings")
        rec.hit(valid)

    return lambda: strat, body


def tolerance():
    strat = st.tuples(slightly(), st.sampled_from(["svd", "eigh"]), st.sampled_from(["raise", "warn", "ignore"]),
                      st.sampled_from(["given", "none", "none, valid"]), st.booleans(), st.integers(-3, 8),
                      st.integers(1, 6))

    def body(case, rec):
        near, method, valid, how, batch, unit, df = case
        scale, tol, ok = slight(near)
        n = len(scale)
        if how != "given":
            tol, ok = None, False
        if how == "none, valid":  # and often singular
            b = np.array(near[0])[:, None] * 10.0**unit
            scale, ok = b @ b.T if df < 4 else b @ b.T + np.eye(n) * 10.0**unit, True
        bg = BGS["PCG64"](1)
        text = f"wishart({df}, {scale.tolist()}, check_valid={valid!r}, tol={tol}, method={method!r})"
        full = np.array([np.eye(n), scale]) if batch else scale
        tolerated(lambda: ExtendedGenerator(bg).wishart(df, full, check_valid=valid, tol=tol, method=method),
                  bg, ok, valid, text)
        rec.hit(f"{how}: {'tolerated' if ok else 'reported'}")

    return lambda: strat, body


def big():
    """More dimensions, samples and cells than the others"""
    how = st.sampled_from(["array", "F", "readonly"])

    def more(d):
        n, (dl, sl), size, seeds = d
        return st.tuples(st.just((n, dl, sl)), st.lists(st.one_of(st.integers(1, n + 2), st.integers(1, 99)),
                                                        min_size=1, max_size=6),
                         st.just([seeded_matrix(n, s) for s in seeds]), st.just(size), how, how)

    leads = st.one_of(
        st.tuples(st.just(((), ())), st.sampled_from([None, (200,), (1025,), (3, 171), 300])),
        st.tuples(st.sampled_from([((), (20,)), ((300,), ()), ((20,), (20,)), ((13, 1), (1, 7))]), st.none()),
        st.just((((30,), ()), (40, 30))))
    return st.tuples(st.tuples(st.integers(5, 16), leads, st.lists(st.integers(0, 9999), min_size=1, max_size=3)).map(
        lambda t: (t[0], t[1][0], t[1][1], t[2])).flatmap(more), BG, seed_int())


def subs(tier):
    return [Sub(f"large {m}", big, body_for(m), quick=30) for m in ("svd", "eigh", "cholesky", "factor")] + [
        Sub("standard large", lambda: st.tuples(
            st.one_of(st.integers(1, 24), st.integers(1, 3000)), st.integers(7, 20),
            st.sampled_from([None, (200,), (1025,), (3, 171), 300]), st.sampled_from([None, True, False]), BG,
            seed_int()), std_body, quick=30)] + [Sub("standard", lambda: st.tuples(
        st.one_of(st.integers(1, 8), st.integers(1, 3000)), st.integers(1, 6), sizes,
        st.sampled_from([None, True, False]), BG, seed_int()), std_body, quick=2000, shards=3)] + [
        Sub(m, lambda m=m: cases(m), body_for(m), quick=1200, shards=3)
        for m in ("svd", "eigh", "cholesky", "factor")] + [
        Sub("singular", *singular(), quick=300, shards=2), Sub("units", *units(), quick=800, shards=2), Sub("tolerance", *tolerance(), quick=400), Sub("rejected", *rejected(), quick=500),
    ]


