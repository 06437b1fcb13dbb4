"""C05: the JAX (recursive) transforms compute the wavelet transform."""
import lat
from checks import transforms as T
from checks.transforms import ASSUMPTIONS, RULE, run  # noqa: F401

PROPERTY = "C05"
CHUNK = 10**6  # a group shares its compiled s2fft kernels inside one worker


def plan(tier):
    out = []
    gr = lambda tag: (lambda c: f"{tag}-{c.sampling}-{int(c.reality)}")
    for s in T.S:
        for real in (False, True):
            def add(mode, inp, *a, tag="", **k):
                cs = lat.lattice(*a, samplings=(s,), realities=(real,), **k)
                out.extend(T.tasks(mode, ("jax",), inp, cs, gr(mode + tag)))

            add("eager", "generic", (2, 3), (1, 2, 3), (2.0,), (0, 1, -1, -2))
            add("eager", "generic", (2, 3), (2,), (1.5,), (0, -1))
            add("eager", "generic", (4,), (1, 2, 3, 4), (2.0,), (0, -2, 3))
            add("eager", "generic", (4,), (3,), (1.5,), (0, -2))
            add("eager", "generic", (4,), (2,), (3.0,), (0, 1))
            add("eager", "generic", (5,), (2, 5), (2.0,), (0, 1))
            add("eager", "generic", (8,), (2,) if s in ("mw", "gl") else (3,), (2,), (0, -2), tag="b")
            if s in ("mw", "gl"):
                add("eager", "generic", (9,), (3,), (3.0,), (0, -2), tag="b")
            if s in ("mw", "dh"):
                add("eager", "generic", (33,), (2,), (2.0,), (0,) if real else (2,), jmins=(0,) if real else (3, -1), tag="b")
            if s in ("mwss", "dh") or real:
                add("eager", "generic", (8,), (8,), (2.0,), (0, -5), jmins=(0,), tag="b")
            if s in ("mw", "gl"):
                add("eager", "generic", (6,), (3,), (4.0,) if s == "gl" else (1.25,), (0,) if real else (4,), jmins=(1,), tag="b")
            add("eager", "basis", (4,), (2, 3), (2.0,), (0, -2), jmins=(0, 1))
            add("eager", "amp", (4,), (2, 3), (2.0,), (0, 1))
            if tier == "thorough":
                add("eager", "generic", (5, 6, 7, 8), (1, 2, 3, 4, 5), (2.0, 3.0, 1.5, 2.5), (0, 1, -1, 2, -2, 3, -3), tag="t")
                add("eager", "generic", (9, 10, 12, 16, 17), (1, 2, 3, 6), (2.0, 3.0), (0, 1, -2), tag="u")
                add("eager", "generic", (64, 65), (1, 2, 3), (2.0,), (0, -2), tag="u")
                add("eager", "basis", (5, 6, 8), (1, 2, 3, 4), (2.0, 3.0), (0, 1, -2), tag="v")
    for s in T.S:
        for real in (False, True):
            def add(inp, *a, tag="", **k):
                cs = lat.lattice(*a, samplings=(s,), realities=(real,), **k)
                out.extend(T.tasks("jit", ("jax",), inp, cs, gr("jit" + tag)))

            add("generic", (4,), (3,), (2.0,), (0,) if real else (-1,), jmins=(0, -1) if s == "mw" else (0,))
            if s in ("mw", "gl"):
                add("generic", (5,), (2,), (3.0,), (0,) if real else (2,), jmins=(0,))
            if tier == "thorough":
                add("generic", (2, 3, 4, 5), (1, 2, 3), (2.0, 3.0), (0, 1, -2), tag="t")
                add("generic", (8, 16), (2, 3), (2.0,), (0, -1), tag="u")
    return out
