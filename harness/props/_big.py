"""Sizes and dimensions past any threshold a fast path may have."""

from hypothesis import strategies as st
import numpy as np

EDGES = [2 ** k + d for k in range(11, 19) for d in (-1, 0, 1)] + [10_000, 65_537, 100_001, 2 ** 18 + 5]
counts = st.one_of(st.sampled_from(EDGES), st.integers(1026, 300_000))


def shaped(n, how):
    """A shape of about n elements."""
    return {0: (n,), 1: (n // 7, 7), 2: (3, n // 3), 3: (1, n), 4: (n // 10, 2, 5)}[how]


shapes = st.builds(shaped, counts, st.integers(0, 4))


def seeded_matrix(n, seed, m=None):
    return np.random.Generator(np.random.PCG64(seed)).integers(-3, 4, (n, m or n)).tolist()
