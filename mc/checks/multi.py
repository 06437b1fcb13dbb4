"""Configuration lattices for the checks that run every implementation side by side."""
import lat
from backends import ALL

S = ("mw", "mwss", "dh", "gl")
FAMILY = {"loop": "np", "vec": "np", "jax": "jax", "c": "c", "pjax": "p", "ptorch": "p"}


def plan(tier, make, realities=(False, True), large=True):
    """make(c, impl) -> task.  Kernels are compiled once per (sampling, reality, implementation family)."""
    out = []
    cheap = tuple(b for b in ALL if b != "jax")
    seen = set()
    for s in S:
        for real in realities:
            def add(impls, *a, tag="", amp=0, **k):
                for c in lat.lattice(*a, samplings=(s,), realities=(real,), **k):
                    for b in impls:
                        key = (b, type(c.lam).__name__, amp) + tuple(c)
                        if key not in seen:
                            seen.add(key)
                            out.append(("eager", f"{FAMILY[b]}{tag}-{s}-{int(real)}", make(c, b) + ([amp] if amp else [])))

            add(ALL, (3, 4), (1, 2, 3), (2.0,), (0, -1))
            add(cheap, (2,), (1, 2), (2.0,), (0, -1))
            for amp in (-100, 100):  # inputs scaled by 2^amp
                add(ALL, (3,), (2,), (2.0,), (0,), amp=amp)
            add(ALL, (4,), (2,), (3.0,), (0, 2))
            add(cheap, (3, 4), (2, "L"), (1.5,), (0, -2))
            add(cheap, (4,), (4,), (2,), (0, 1))
            add(("vec", "c", "pjax", "ptorch"), (5,), (1, 2, 3, 5), (2.0, 3.0), (0, -2))
            add(("vec", "c", "pjax", "ptorch"), (6,), (3,), (2.0,), (0, -2))
            add(("loop",), (5,), (3,), (2.0,), (0, 1))
            add(("jax",), (5,), (3,), (2.0,), (0,) if real else (1,))
            # more orientations than the coarse scales can hold
            add(("vec", "c", "pjax", "ptorch"), (8,), (6, 7), (2.0,), (0,), jmins=(0,))
            add(cheap, (5,), (5,), (1.5,), (0,), jmins=(0,))
            if s == ("mw" if real else "dh"):
                add(("jax",), (6,), (6,), (2.0,), (0,), jmins=(0,))
            if large:
                add(("vec", "c", "ptorch"), (9,), (3,), (2.0,), (0, 2), jmins=(0, 2))
                add(("c", "ptorch"), (16,), (3,), (2.0,), (0,), jmins=(0,))
                if s == "mw":
                    add(("jax",), (9,), (2,), (2.0,), (0,), jmins=(0,))
            if tier == "thorough":
                add(ALL, (2, 3, 4), (1, 2, 3), (2.0, 3.0), (0, 1, -2), tag="s")
                add(ALL, (5, 6, 7, 8), (1, 2, 3, 4, 5), (2.0, 3.0), (0, 1, -2, 3), tag="t")
                add(cheap, (5, 6, 7, 8, 9, 10), (1, 2, 3, 4, 5, "L"), (1.5, 2.5, 4.0), (0, -1, 2, -3), tag="u")
                add(cheap[1:], (16, 17, 32), (1, 2, 3, 5), (2.0, 3.0), (0, -2), tag="v")
    # long groups first, so that the load balances
    size = {}
    w = {"loop": 4, "vec": 4, "jax": 25, "c": 1, "pjax": 4, "ptorch": 1}
    for _, g, t in out:
        size[g] = size.get(g, 0) + w[t[0]]
    return sorted(out, key=lambda x: -size[x[1]])


def parse(t):
    """(implementation, configuration, input scale) of a task."""
    return t[0], lat.cfg(t[1]), 2.0 ** (t[2] if len(t) > 2 else 0)
