"""C19: rotating the signal rotates its wavelet coefficients."""
import lat
import ref
from checks import multi

PROPERTY = "C19"
RULE = ("one task per (implementation, configuration); for every rotation of the alphabet (one longitude step, the "
        "antipodal flip about y, a generic rotation) the real analysis of the rotated signal is compared with the "
        "rotation of the real analysis of the signal, scale by scale; no knowledge of the filters is used")
ASSUMPTIONS = ["linearity as in C04", "tolerance 1e-8 relative"]
CHUNK = 10**6


def plan(tier):
    return multi.plan(tier, lambda c, b: [b, list(c)], large=(tier == "thorough"))


def run(ctx, t):
    import math

    import numpy as np

    from backends import to_np

    b, c, amp = multi.parse(t)
    B = ctx.B
    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)

    def spectra(x):
        f = lat.signal(c, x)
        r = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, amp * f)))
        if r is None:
            return None
        out = []
        for i, y in enumerate(r[0]):
            j = c.J_min + i
            Lj, Nj = ref.wav_L(c.L, j, c.lam), ref.wav_N(c.L, c.N, j, c.lam)
            out.append(ref.so3_project(to_np(y) / amp, Lj, Nj, c.sampling)[0])
        Ls = ref.scal_L(c.L, c.J_min, c.lam)
        return out, ref.sph_project(to_np(r[1]) / amp, Ls, c.spin, c.sampling)[0]

    a = spectra(flm)
    if a is None:
        return
    rots = [("longitude step", 2 * math.pi / ref.nphi(c.L, c.sampling), 0.0, 0.0), ("flip", 0.0, math.pi, 0.0), ("generic", 0.7, 1.1, -2.3)]
    for name, al, be, ga in rots:
        g = ref.rotate_flm(flm, c.L, al, be, ga)
        ctx.state(name)
        r = spectra(g)
        for i, (p, q) in enumerate(zip(r[0], a[0])):
            Lj = q.shape[1]
            want = np.stack([ref.rotate_flm(q[n], Lj, al, be, ga) for n in range(q.shape[0])])
            ctx.close(f"scale {c.J_min + i} under {name} ({b})", p, want, 1e-8)
        ctx.close(f"scaling part under {name} ({b})", r[1], ref.rotate_flm(a[1], a[1].shape[0], al, be, ga), 1e-8)
        ctx.trace()
