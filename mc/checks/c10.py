"""C10: the coefficients carry exactly the energy of the signal, multipole by multipole."""
import lat
import ref
from checks import multi

PROPERTY = "C10"
RULE = ("one task per (implementation, configuration); the maps returned by the real analysis are projected on "
        "Wigner/spherical harmonics by dense least squares, must be band-limited as advertised, and their energy at "
        "every multipole must equal the signal's")
ASSUMPTIONS = ["linearity as in C04", "tolerance 1e-8 relative"]
CHUNK = 10**6


def plan(tier):
    out = multi.plan(tier, lambda c, b: [b, list(c)], large=(tier == "thorough"))
    for c in lat.lattice((2, 3, 4, 5), (1, 2, 3), (2.0, 3.0), (0, 1), multi.S, multires=(False,)):
        for b in ("vec", "loop"):
            out.append(("eager", f"full-{c.sampling}", [b, list(c)]))
    return out


def run(ctx, t):
    import numpy as np

    from backends import to_np

    b, c, amp = multi.parse(t)
    B = ctx.B
    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)
    f = lat.signal(c, flm)
    r = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, amp * f)))
    if r is None:
        return
    w, s = r
    tot = np.zeros(c.L)
    for i, x in enumerate(w):
        j = c.J_min + i
        Lj, Nj = ref.wav_L(c.L, j, c.lam, c.multires), ref.wav_N(c.L, c.N, j, c.lam, c.multires)
        x = to_np(x) / amp
        want = (2 * Nj - 1, ref.ntheta(Lj, c.sampling), ref.nphi(Lj, c.sampling))
        ctx.check("map shape", x.shape == want, f"{x.shape} vs {want}")
        p, res = ref.so3_project(x, Lj, Nj, c.sampling)
        ctx.check(f"scale {j} is band-limited at {Lj}", res < 1e-8, f"residual {res:.2e}")
        l = np.arange(Lj)
        tot[:Lj] += np.sum(np.abs(p) ** 2, axis=(0, 2)) * (2 * l + 1) / (8 * np.pi**2)
        ctx.state(("scale", j))
    Ls = ref.scal_L(c.L, c.J_min, c.lam, c.multires)
    p, res = ref.sph_project(to_np(s) / amp, Ls, c.spin, c.sampling)
    ctx.check("scaling map is band-limited", res < 1e-8, f"residual {res:.2e}")
    tot[:Ls] += np.sum(np.abs(p) ** 2, axis=1)
    ctx.close(f"energy per multipole ({b})", tot, np.sum(np.abs(flm) ** 2, axis=1), 1e-8)
    ctx.trace()
