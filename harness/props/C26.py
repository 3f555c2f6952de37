"""The same results from every build: the other checks' cases on builds made in other ways."""

import importlib
import os

from hypothesis import strategies as st

from ..core import Sub

BUDGET = 1

RULE = ("The library is compiled three times more: portable (no vector instructions, no 128-bit integers, no "
        "assembly: what other platforms compile), by clang with -O3 and Random123's assembly, and by gcc "
        "without optimisation; assertions on in the last two. A case is one of the checks of the streams, "
        "states, repositionings, seeding, interfaces and distributions, with the oracle of that check. "
        "Non-trivial: that check's own rule.")

FLAVOUR = os.environ.get("VERIF_FLAVOUR", "portable")

STREAMS = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10")
# the rest, in cases on each build
OTHERS = {"C06": 600, "C11": 800, "C12": 800, "C14": 800, "C15": 400, "C16": 400, "C17": 1200, "C18": 500,
          "C19": 600, "C20": 500, "C21": 500, "C25": 1000}
# generators with more than one implementation get most of the cases of the portable build
SEVERAL = ("PCG64", "LCG128Mix", "Philox", "SFMT", "DSFMT", "AESCounter", "ChaCha", "SPECK128")
FAULTS = ("interrupted", "unavailable")  # these replace system calls in processes of their own


def share(name):
    if FLAVOUR != "portable":
        return 0.08
    return 0.5 if any(c in name for c in SEVERAL) else 0.08


def mixed(mod, tier):
    by = {s.name: s for s in mod.subs(tier) if s.name not in FAULTS}
    made = {}

    def inner(name):
        if name not in made:
            made[name] = by[name].strategy()
        return made[name].map(lambda c: (name, c))

    return (lambda: st.sampled_from(sorted(by)).flatmap(inner),
            lambda case, rec: by[case[0]].body(case[1], rec))


def subs(tier):
    out = []
    for p in STREAMS:
        mod = importlib.import_module(f"harness.props.{p}")
        for s in mod.subs(tier):
            n = s.quick * getattr(mod, "BUDGET", 4) * share(s.name)
            out.append(Sub(f"{FLAVOUR}/{p}/{s.name}", s.strategy, s.body, quick=max(int(n), 4), shards=s.shards))
    for p, n in OTHERS.items():
        mod = importlib.import_module(f"harness.props.{p}")
        out.append(Sub(f"{FLAVOUR}/{p}", *mixed(mod, tier), quick=n, shards=2))
    return out
