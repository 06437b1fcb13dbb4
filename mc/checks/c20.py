"""C20: HEALPix sampling."""
import numpy as np

import lat
import ref
from backends import Cfg, to_np

PROPERTY = "C20"
RULE = ("every configuration (implementation, L, N, J_min, nside, spin, reality, multiresolution) of the lattice in plan(); in each: analysis of a generic map, of every basis harmonic's map "
        "(thorough: and of every single-pixel map) and synthesis of generic coefficient maps and of coefficient sets with one non-zero array, compared with the model")
ASSUMPTIONS = ["base, JAX-precompute and Torch-precompute transforms are compared with an independent HEALPix model (equal-weight quadrature)",
               "the recursive JAX transforms are compared with the model's harmonic-space maps between s2fft's own HEALPix transforms, because s2fft's recursive HEALPix Wigner transform is itself inexact",
               "precompute transforms: spin 0 and nside >= 2 (s2fft's HEALPix kernels for other spins are wrong upstream and its FFTs need nside >= 2)",
               "every scale's band-limit is at least 2 nside (s2fft's HEALPix FFTs need it)"]
CHUNK = 3


def plan(tier):
    out = []
    q = tier == "quick"
    base = []
    for L, N, J, nside in [(2, 1, 0, 1), (4, 2, 0, 1), (4, 3, 1, 1), (5, 1, 1, 1), (4, 2, 1, 2), (6, 2, 1, 2), (6, 3, 2, 2), (5, 4, 2, 2), (8, 2, 2, 2)] + ([] if q else [(8, 3, 1, 2), (8, 1, 0, 2), (8, 5, 2, 2), (9, 2, 2, 3), (12, 3, 3, 3), (12, 2, 3, 4)]):
        for spin in (0, 1, -2):
            for real in ((False, True) if spin == 0 else (False,)):
                for mr in (True, False):
                    base.append((L, N, J, 2.0, spin, "healpix", real, mr, nside))
    for L, N, J, lam, nside in [(9, 2, 1, 3.0, 2), (6, 2, 2, 1.5, 1)]:
        base.append((L, N, J, lam, 0, "healpix", False, True, nside))
    for c in base:
        c = Cfg(*c)
        if not strict(c):
            continue
        for b in ("vec", "loop"):
            if b == "loop" and c.L > 6 and q:
                continue
            out.append(("eager", f"{b}-{c.L}-{c.nside}-{c.N}", [b, list(c)]))
    for L, N, J, lam, nside in [(8, 2, 2, 2.0, 2), (8, 3, 2, 2.0, 2), (6, 2, 2, 2.0, 2), (8, 1, 2, 2.0, 2), (9, 2, 2, 2.5, 2), (6, 4, 2, 2.0, 2)] + ([] if q else [(12, 2, 3, 2.0, 4), (12, 3, 3, 2.0, 3), (16, 2, 3, 2.0, 4), (9, 3, 2, 3.0, 3)]):
        for real in (False, True):
            c = Cfg(L, N, J, lam, 0, "healpix", real, True, nside)
            if not strict(c):
                continue
            for b in ("pjax", "ptorch", "jax"):
                out.append(("eager", f"{b}-{L}-{nside}-{N}-{int(real)}", [b, list(c)]))
                out.append(("eager", f"{b}-{L}-{nside}-{N}-{int(real)}", [b + ":flm", list(c)]))
    return out


def limits(c):
    J = ref.j_max(c.L, c.lam)
    return [ref.wav_L(c.L, j, c.lam, c.multires) for j in range(c.J_min, J + 1)] + [ref.scal_L(c.L, c.J_min, c.lam, c.multires)]


def ok(c):
    return c.J_min < ref.j_max(c.L, c.lam) and abs(c.spin) < c.L


def strict(c):
    return ok(c) and min(limits(c)) >= 2 * c.nside


# ------------------------------------------------------------------ model
def m_analysis(c, f):
    flm = ref.healpix_forward(f, c.L, c.spin, c.nside)
    return m_flm(c, flm)


def m_flm(c, flm, scal=True):
    psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin)
    wav, s = ref.harm_analysis(flm, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, c.multires)
    J = ref.j_max(c.L, c.lam)
    maps = [ref.healpix_so3(w, ref.wav_L(c.L, j, c.lam, c.multires), ref.wav_N(c.L, c.N, j, c.lam, c.multires), c.nside) for w, j in zip(wav, range(c.J_min, J + 1))]
    return maps, ref.healpix_sph(s, ref.scal_L(c.L, c.J_min, c.lam, c.multires), c.spin, c.nside)


def m_synthesis(c, fw, fs):
    J = ref.j_max(c.L, c.lam)
    wav = [ref.healpix_so3_forward(w, ref.wav_L(c.L, j, c.lam, c.multires), ref.wav_N(c.L, c.N, j, c.lam, c.multires), c.nside) for w, j in zip(fw, range(c.J_min, J + 1))]
    s = ref.healpix_forward(fs, ref.scal_L(c.L, c.J_min, c.lam, c.multires), c.spin, c.nside)
    psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin)
    return ref.healpix_sph(ref.harm_synthesis(wav, s, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, c.multires), c.L, c.spin, c.nside)


# the same maps between s2fft's own transforms (recursive JAX implementation)
def j_flm(c, flm):
    import jax.numpy as jnp
    import s2fft

    psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin)
    wav, s = ref.harm_analysis(flm, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, True)
    out = []
    for w, j in zip(wav, range(c.J_min, ref.j_max(c.L, c.lam) + 1)):
        Lj, Nj, L0 = ref.wav_L(c.L, j, c.lam), ref.wav_N(c.L, c.N, j, c.lam), ref.wav_L0(j, c.lam)
        out.append(np.array(s2fft.wigner.inverse_jax(jnp.array(w), Lj, Nj, c.nside, "healpix", c.reality, None, L0)))
    Ls = ref.scal_L(c.L, c.J_min, c.lam)
    return out, np.array(s2fft.inverse_jax(jnp.array(s), Ls, c.spin, c.nside, "healpix", c.reality))


def j_analysis(c, f):
    import jax.numpy as jnp
    import s2fft

    return j_flm(c, np.array(s2fft.forward_jax(jnp.array(f), c.L, c.spin, c.nside, "healpix", c.reality)))


def j_synthesis(c, fw, fs):
    import jax.numpy as jnp
    import s2fft

    wav = []
    for w, j in zip(fw, range(c.J_min, ref.j_max(c.L, c.lam) + 1)):
        Lj, Nj, L0 = ref.wav_L(c.L, j, c.lam), ref.wav_N(c.L, c.N, j, c.lam), ref.wav_L0(j, c.lam)
        wav.append(np.array(s2fft.wigner.forward_jax(jnp.array(w), Lj, Nj, c.nside, "healpix", c.reality, None, L0)))
    Ls = ref.scal_L(c.L, c.J_min, c.lam)
    s = np.array(s2fft.forward_jax(jnp.array(fs), Ls, c.spin, c.nside, "healpix", c.reality))
    psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin)
    flm = ref.harm_synthesis(wav, s, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, True)
    return np.array(s2fft.inverse_jax(jnp.array(flm), c.L, c.spin, c.nside, "healpix", c.reality))


# ------------------------------------------------------------------ exploration
def maps_in(ctx, c):
    r = lat.rng_for(ctx.seed, "hpx", c.L, c.nside, c.N, c.spin)
    npix = 12 * c.nside**2
    f = r.standard_normal(npix) + (0 if c.reality else 1j * r.standard_normal(npix))
    out = [("generic map", f)]
    for name, flm in lat.basis_flm(c.L, c.spin, c.reality):
        g = ref.healpix_sph(flm, c.L, c.spin, c.nside)
        out.append((name, g.real if c.reality else g))
    return out


def run(ctx, t):
    b, c = t[0], Cfg(*t[1])
    b, _, kind = b.partition(":")
    B = ctx.B
    an, sy, fl = (j_analysis, j_synthesis, j_flm) if b == "jax" else (m_analysis, m_synthesis, m_flm)
    cut = (lambda x: x.real) if c.reality else (lambda x: x)
    J = ref.j_max(c.L, c.lam)
    tag = f"{b} {c}"
    if kind == "flm":
        flm = lat.generic_flm(c.L, 0, c.reality, ctx.seed)
        want = fl(c, flm)[0]
        for top in [None] + list(range(c.J_min, J + 1)):
            got = ctx.call(f"flm_to_analysis {tag} J_max={top}", B.flm_to_analysis, b, c, B.arr(b, flm), top)
            n = len(want) if top is None else top - c.J_min + 1
            ctx.check(f"number of scales {tag} J_max={top}", len(got) == n, f"{len(got)} vs {n}")
            for i in range(n):
                ctx.close(f"flm_to_analysis {tag} J_max={top} scale {c.J_min + i}", got[i], cut(want[i]), 1e-8)
            ctx.state(top)
            ctx.trace()
        return
    ins = maps_in(ctx, c)
    if b in ("jax", "pjax") or (b == "loop" and c.L > 4):
        ins = ins[:1] + ins[-1:]
    elif c.L > 5 and ctx_quick():
        ins = ins[:1] + ins[1::7]
    for name, f in ins:
        want, ws = an(c, f)
        got, gs = ctx.call(f"analysis {tag} of {name}", B.analysis, b, c, B.arr(b, f))
        ctx.check(f"number of scales {tag}", len(got) == len(want), f"{len(got)} vs {len(want)}")
        for i, (x, y) in enumerate(zip(got, want)):
            ctx.close(f"analysis {tag} of {name}, scale {c.J_min + i}", x, cut(y), 1e-8)
        ctx.close(f"analysis {tag} of {name}, scaling", gs, cut(ws), 1e-8)
        ctx.state(("an", name))
        ctx.trace()
    # synthesis: arbitrary coefficient maps, all together and one array at a time
    r = lat.rng_for(ctx.seed, "hpxs", c.L, c.nside, c.N)
    npix = 12 * c.nside**2
    def rand(*s):
        return r.standard_normal(s) + (0 if c.reality else 1j * r.standard_normal(s))
    fw = [rand(2 * ref.wav_N(c.L, c.N, j, c.lam, c.multires) - 1, npix) for j in range(c.J_min, J + 1)]
    fs = rand(npix)
    sets = [("all", fw, fs)] + [(f"only {k}", [x if i == k else 0 * x for i, x in enumerate(fw)], fs if k == len(fw) else 0 * fs) for k in range(len(fw) + 1)]
    if b in ("jax", "pjax"):
        sets = sets[:1]
    for name, w, s in sets:
        want = sy(c, w, s)
        got = ctx.call(f"synthesis {tag} of {name}", B.synthesis, b, c, [B.arr(b, x) for x in w], B.arr(b, s))
        ctx.close(f"synthesis {tag} of {name}", got, cut(want), 1e-8)
        ctx.state(("sy", name))
        ctx.trace()


def ctx_quick():
    import os

    return os.environ.get("VERIF_TIER", "quick") == "quick"
