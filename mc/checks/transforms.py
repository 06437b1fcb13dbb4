"""Shared body of the per-implementation transform checks C04..C08."""
import lat

RULE = ("one task per (implementation, configuration, input alphabet); states are the signals and coefficient "
        "sets of the model, transitions are analysis/synthesis calls of the real code, every trace "
        "signal->coefficients->signal and coefficients->signal is compared with the dense reference model")
ASSUMPTIONS = [
    "the transforms are linear maps, so a generic signal (every harmonic coefficient present) and the complete "
    "basis represent every signal; amplitudes 0, 1e-9 and 1e9 probe departures from linearity",
    "s2fft/SSHT/ducc0 are part of the executed code, not of the model",
    "bounds: the band-limits, directionalities, spins, dilations and samplings listed by the plan",
]
S = ("mw", "mwss", "dh", "gl")


def tasks(mode, impls, inp, cfgs, group=lat.group_of):
    return [(mode, group(c), [b, inp, list(c)]) for c in cfgs for b in impls]


def run(ctx, t):
    b, inp, c = t
    lat.conform(ctx, b, lat.cfg(c), inp)


def plan_grouped(tier, impl):
    """Lattice of the implementations whose calls share compiled kernels per sampling."""
    out = []
    for s in S:
        for real in (False, True):
            def add(mode, inp, *a, tag="", **k):
                cs = lat.lattice(*a, samplings=(s,), realities=(real,), **k)
                out.extend(tasks(mode, impl, inp, cs, lambda c: f"{mode}{tag}-{s}-{int(real)}"))

            add("eager", "generic", (2, 3, 4), (1, 2, 3, "L"), (2.0, 3.0, 1.5), (0, 1, -1, 2, -2, 3))
            add("eager", "amp", (4,), (2, 3), (2.0,), (0, 1))
            add("eager", "basis", (4,), (2, 3), (2.0,), (0, -2), jmins=(0, 1))
            add("eager", "generic", (5, 9), (1, 2, 3, 5), (2.0, 3.0), (0, -2), tag="b")
            add("eager", "generic", (8,), (2, 4), (2.0, 3.0), (0, -2), tag="b")
            add("eager", "generic", (8,), (3,), (2,), (0, 1), tag="b")
            add("eager", "generic", (17,), (2, 3), (2.0,), (0, 1), tag="d", jmins=(0, 3))
            add("eager", "generic", (33,), (2,), (2.0,), (0, -1), tag="d", jmins=(0, 4))
            add("eager", "generic", (8,), (4, 8), (2.0,), (0, 4, -5, 7), tag="b", jmins=(0,))
            add("eager", "generic", (6,), (3,), (4.0, 2.5, 1.25, 5.0), (0,) if real else (-4,), tag="d", jmins=(0,))
            if s in ("mw", "dh"):
                add("eager", "generic", (12,), (7, 10), (2.0,), (0,), tag="b", jmins=(0,))
            if s in ("mwss", "gl") and real == (s == "gl"):
                add("eager", "generic", (20,), (17,), (2.0,), (0,), tag="b", jmins=(0,))
            if s == "mw":
                add("eager", "generic", (64,), (2,), (2.0,), (0,) if real else (1,), tag="c", jmins=(0,))
            if tier == "thorough":
                add("eager", "generic", tuple(range(5, 11)), (1, 2, 3, 4, 5, "L"), (2.0, 3.0, 1.5, 2.5), (0, 1, -1, 2, -2, 3, -3), tag="t")
                add("eager", "generic", (12, 16, 17, 32), (1, 2, 3, 6), (2.0, 3.0), (0, 1, -2), tag="u")
                add("eager", "basis", (5, 6, 8), (1, 2, 3, 4), (2.0, 3.0), (0, 1, -2), tag="v")
                add("eager", "generic", (64,), (1, 2, 3), (2.0,), (0, -2), jmins=(0, 3), tag="w")
    if impl == ("ptorch",):
        return out
    for s in S:  # the code exactly as a user runs it
        for real in (False, True):
            def add(inp, *a, tag="", **k):
                cs = lat.lattice(*a, samplings=(s,), realities=(real,), **k)
                out.extend(tasks("jit", impl, inp, cs, lambda c: f"jit{tag}-{s}-{int(real)}"))

            add("generic", (3,), (2,), (2.0,), (0,))
            add("generic", (4,), (3,), (2.0,), (0,) if real else (-1,))
            add("generic", (5,), (2,), (3.0,), (0,) if real else (2,), jmins=(0,))
            if tier == "thorough":
                add("generic", (2, 3, 4, 5), (1, 2, 3), (2.0, 3.0), (0, 1, -2), tag="t")
                add("generic", (8, 16), (2, 3), (2.0,), (0, -1), tag="u")
    return out
