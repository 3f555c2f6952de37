from hypothesis import strategies as st
import randomgen as R

from ..common import uint
from ..core import Sub, check
from ..gens import BY_NAME, CFGS
from ..models import recur
from . import _mix
from . import _stream as S

BUDGET = 6

RULE = ("One case: a generator configuration, a start (a seed plus a number of draws, or a crafted "
        "legal state with boundary-biased words, read positions and a pending half word) and a list "
        "of raw/uint32/uint64/double draws compared one by one with an independent model. "
        "Non-trivial: at least two kinds of outputs mixed, or a start in mid-block.")
CLASSES = ("PCG64 PCG64DXSM LCG128Mix PCG32 Xoroshiro128 Xoshiro256 Xoshiro512 Xorshift1024 LXM SFC64 JSF "
           "Romu Tyche EFIIX64 MT19937 MT64 SFMT DSFMT").split()

# the rotations published for JSF, in the order of the class
JSF32 = [(27, 17, 0), (9, 16, 0), (9, 24, 0), (10, 16, 0), (10, 24, 0), (11, 16, 0), (11, 24, 0), (25, 8, 0),
         (25, 16, 0), (26, 8, 0), (26, 16, 0), (26, 17, 0), (27, 16, 0), (3, 14, 24), (3, 25, 15), (4, 15, 24),
         (6, 16, 28), (7, 16, 27), (8, 14, 3), (11, 16, 23), (12, 16, 22), (12, 17, 23), (13, 16, 22), (15, 25, 3),
         (16, 9, 3), (17, 9, 3), (17, 27, 7), (19, 7, 3), (23, 15, 11), (23, 16, 11), (23, 17, 11), (24, 3, 16),
         (24, 4, 16), (25, 14, 3), (27, 16, 6), (27, 16, 7)]
JSF64 = [(7, 13, 37), (39, 11, 0)]


def listed(case, rec):
    """Every parameter set the class lists is a published one, and is what the generator then runs with"""
    size, i, words, n = case
    table = JSF64 if size == 64 else JSF32
    given = R.JSF.parameters[size]
    check(len(given) == len(table), f"JSF.parameters[{size}] has {len(given)} sets")
    i %= len(table)
    bg = R.JSF(1, size=size, **given[i])
    m = (recur.JSF64 if size == 64 else recur.JSF32)().load(bg.state)
    m.pqr = list(table[i])
    state = bg.state
    for k, w in zip("abcd", words):
        state["state"][k] = w >> 64 - size
    bg.state = state
    m.v = [w >> 64 - size for w in words]
    want = [m.next() for _ in range(n)]
    got = bg.random_raw(n).tolist()
    check(got == want, f"JSF with listed set {i} of {size} bits {given[i]}: {got} != {want}")
    rec.hit(str(size))


def subs(tier):
    out = []
    for c in CFGS:
        if c.cname in CLASSES:
            heavy = c.cname in ("SFMT", "DSFMT", "MT19937", "MT64", "HC128", "EFIIX64")
            n = 60 if heavy else 120
            out.append(S.sub(f"seeded/{c}", S.seeded(c), quick=n))
            out.append(S.sub(f"crafted/{c}", S.crafted(c), quick=n))
    out.append(Sub("listed/JSF", lambda: st.tuples(
        st.sampled_from([32, 64]), st.integers(0, 35), st.tuples(*[uint(64)] * 4), st.integers(1, 8)),
        listed, quick=60))
    out.append(_mix.functions("state", "seed", quick=100))
    return out
