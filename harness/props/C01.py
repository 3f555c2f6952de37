from ..gens import BY_NAME, CFGS
from . import _stream as S

BUDGET = 6

RULE = ("One case: a cipher or counter based configuration, a key and counter (boundary-biased "
        "over the full width), or a crafted state, and a list of raw/uint32/uint64/double draws "
        "compared one by one with an independent implementation of the published algorithm. "
        "Non-trivial: more than one operation and a non-zero key or counter.")


def aes(cfg, key, counter):
    return cfg.make(None, key=key, counter=counter), cfg.model().keyed(key, counter)


def rounds(cfg, key, counter):
    return (cfg.make(None, key=key, counter=counter),
            cfg.model().keyed(key, counter, cfg.kwargs.get("rounds", 34)))


def chacha(cfg, key, counter):
    return (cfg.make(None, key=key, counter=counter),
            cfg.model().keyed(key, counter, cfg.kwargs["rounds"]))


def hc(cfg, key, counter):
    return cfg.make(None, key=key), cfg.model().keyed(key)


MAKERS = {"AESCounter": aes, "SPECK128": rounds, "ChaCha": chacha, "Philox": aes, "ThreeFry": aes,
          "HC128": hc}


def subs(tier):
    out = []
    for c in CFGS:
        if c.cname not in MAKERS and c.cname != "Squares":
            continue
        if c.cname in MAKERS:
            n = 40 if c.cname in ("HC128", "AESCounter") else 80
            out.append(S.sub(f"keyed/{c}", S.keyed(c, MAKERS[c.cname]), quick=n))
        out.append(S.sub(f"seeded/{c}", S.seeded(c), quick=40))
        if S.states.strategy(c) is not None:
            out.append(S.sub(f"crafted/{c}", S.crafted(c), quick=60))
    return out
