"""C04: the NumPy transforms (looped and vectorised) compute the wavelet transform."""
import lat
from checks import transforms as T
from checks.transforms import RULE, ASSUMPTIONS  # noqa: F401

PROPERTY = "C04"
CHUNK = 30


def plan(tier):
    S = T.S
    out = []

    def add(inp, *a, impls=("vec", "loop"), **k):
        out.extend(T.tasks("eager", impls, inp, lat.lattice(*a, **k)))

    both = dict(multires=(True, False))
    add("generic", (2, 3, 4), (1, 2, 3, "L"), (2.0, 1.5), (0, 1, -1, 2, -2, 3), S)
    add("generic", (3, 4), (2, 3), (3.0,), (0, -2), S)
    add("generic", (2, 3, 4), (1, 2, 3, "L"), (2.0, 1.5), (0, -1), S, multires=(False,))
    add("generic", (5, 8, 9), (1, 2, 3, 5), (2.0, 3.0), (0, -2), S[:1])
    add("generic", (5, 8), (2, 5), (2.0, 3.0), (0, 1), S[:1], multires=(False,))
    add("generic", (5, 8), (2, 3), (2,), (0, 1), S[1:])
    add("basis", (3,), (1, 3), (2.0,), (0, -1), S)
    add("basis", (4,), (3,), (2.0,), (0, 1), S, jmins=(0,))
    add("amp", (4,), (2, 3), (2.0,), (0, 1), S)
    add("generic", (12, 17), (3, 6), (2.0,), (0, -2), ("mw",), jmins=(0, 2, -1), impls=("vec",))
    add("generic", (33,), (2,), (2.0,), (0, -2), ("mw",), jmins=(4,), impls=("vec",))
    # many orientations, large spins, unusual dilations, large band-limits
    add("generic", (8,), (4, 7, "L"), (2.0,), (0, 4, -5), ("mw",), jmins=(0, -1))
    add("generic", (6, 9), (3,), (4.0, 2.5, 1.25, 5.0), (0, -4), ("mw",), jmins=(0, 1, -1))
    add("generic", (12,), (7, 10, 11), (2.0,), (0,), ("mw", "gl"), jmins=(0,), impls=("vec",))
    add("generic", (48,), (2,), (2.0,), (0,), ("dh",), jmins=(0,), realities=(True,), impls=("vec",))
    add("generic", (48,), (2,), (2.0,), (-2,), ("mwss",), jmins=(0,), impls=("vec",))
    add("generic", (33,), (3,), (3.0,), (0,), ("gl",), jmins=(0,))
    for c in lat.lattice((2, 3, 4, 5), (1, 2, 3), (2.0,), (0, 1), S[:2], **both) + lat.lattice((8,), (2,), (2.0, 3.0), (0, -1), S[:1]):
        out.append(("eager", lat.group_of(c), ["vec", "scattering", list(c)]))
        out.append(("eager", lat.group_of(c), ["vec", "spin0", list(c)]))
        out.append(("eager", lat.group_of(c), ["loop", "spin0", list(c)]))
    if tier == "thorough":
        add("generic", tuple(range(5, 13)), (1, 2, 3, 4, 5, "L"), (2.0, 3.0, 1.5, 2.5, 4.0), (0, 1, -1, 2, -2, 3, -3), S, **both)
        add("generic", (16, 17, 24, 32, 33), (1, 2, 3, 5), (2.0, 3.0), (0, 1, -2), S, impls=("vec",), **both)
        add("basis", (5, 6, 8), (1, 2, 3, 4), (2.0, 3.0), (0, 1, -2), S)
    return out


def run(ctx, t):
    b, inp, c = t
    c = lat.cfg(c)
    if inp in ("generic", "basis", "amp"):
        return lat.conform(ctx, b, c, inp)
    import numpy as np

    import ref

    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)
    f = lat.signal(c, flm)
    if inp == "scattering":
        rw, rs = lat.model_analysis(c, flm)
        w, s = ctx.call("analysis(scattering)", ctx.m.base.analysis, np.array(f), c.L, c.N, c.J_min, c.lam, c.spin, 0,
                        c.sampling, c.nside, c.reality, c.multires, True)
        ctx.check("number of scales", len(w) == len(rw), f"{len(w)} vs {len(rw)}")
        for i, (x, y) in enumerate(zip(w, rw)):
            ctx.close(f"modulus of the wavelet coefficients, scale {i}", x, np.abs(y))
        ctx.close("scaling coefficients", s, rs)
        ctx.trace()
        return
    # spin-lowered wavelets: the same transform with the spin0 filters
    mod = ctx.m.base
    an, sy = (mod.analysis, mod.synthesis) if b == "vec" else (mod.analysis_looped, mod.synthesis_looped)
    for s0 in (1, -1, 2):
        if abs(s0) >= c.L:
            continue
        psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin, s0)
        rw, rs = ref.analysis(flm, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.multires, psi, phi)
        w, s = ctx.call("analysis(spin0)", an, np.array(f), c.L, c.N, c.J_min, c.lam, c.spin, s0, c.sampling, c.nside, c.reality, c.multires)
        ctx.check("number of scales", len(w) == len(rw), f"{len(w)} vs {len(rw)}")
        for i, (x, y) in enumerate(zip(w, rw)):
            ctx.close(f"wavelet coefficients with spin0={s0}, scale {i}", x, y)
        ctx.close(f"scaling coefficients with spin0={s0}", s, rs)
        hw, hs = lat.generic_coeffs(c, ctx.seed)
        mw, ms = lat.coeff_maps(c, hw, hs)
        want = lat.signal(c, ref.harm_synthesis(hw, hs, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, c.multires))
        g = ctx.call("synthesis(spin0)", sy, mw, ms, c.L, c.N, c.J_min, c.lam, c.spin, s0, c.sampling, c.nside, c.reality, c.multires)
        ctx.close(f"synthesis with spin0={s0}", g, want)
        ctx.state(s0)
        ctx.trace()
