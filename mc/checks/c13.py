"""C13: size helpers agree with the transforms and always capture the filters."""
import itertools

import lat
import ref
from checks import multi

PROPERTY = "C13"
RULE = ("helper tasks: one per (L, lam), every J_min, j, N, sampling and multiresolution setting inside; support tasks: one "
        "per filter bank, every (j, l, m) entry against the limits the helpers report; shape tasks: one per (implementation, "
        "configuration), the arrays the real transforms return and accept against the helpers")
ASSUMPTIONS = ["powers lam**j are evaluated in double precision, as documented by the formulas"]
CHUNK = 60
S = ("mw", "mwss", "dh", "gl")


def plan(tier):
    out = []
    lams = [2.0, 2, 3.0, 3, 1.5, 2.5, 1.2, 1.7, 4.0, 5, 6.0, 7.0, 10.0, 3.3]
    top = 130 if tier == "quick" else 600
    for L in list(range(2, top)) + [243, 244, 256, 257, 512, 625, 729, 730, 1000, 1024, 1025, 2187, 3125, 4096]:
        for lam in lams:
            out.append(("eager", f"h{L % 16}", ["helpers", L, lam]))
    for L in (2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 27, 28, 32, 33) + ((64, 65, 81, 82) if tier == "quick" else tuple(range(34, 90)) + (125, 128, 129)):
        for lam in lams:
            out.append(("eager", f"s{L}", ["support", L, lam]))
    lim = {"loop": (2, 3, 4), "vec": (2, 3, 4, 5, 6, 9), "c": (2, 3, 4, 5, 6, 8, 9), "ptorch": (2, 3, 4, 5, 8, 9), "pjax": (2, 3, 4, 6), "jax": (2, 3)}
    for s in S:
        for b, Ls in lim.items():
            for c in lat.lattice(Ls, (1, 2, 3) if b == "jax" else (1, 2, 3, 5), (2.0,) if b == "jax" else (2.0, 3.0, 1.5), (0,), (s,), realities=(False,),
                                 multires=(True, False) if b in ("vec", "loop") else (True,)):
                if c.L > 5 and c.lam == 1.5 and c.J_min > 1:
                    continue
                out.append(("eager", f"{multi.FAMILY[b]}-{s}-{b}", ["shapes", b, list(c)]))
    for b in ("jax", "c", "pjax"):
        for s in S:
            out.append(("jit", f"jit-{s}", ["shapes", b, list(lat.Cfg(3, 2, 0, 2.0, 0, s))]))
    return out


def run(ctx, t):
    globals()["t_" + t[0]](ctx, *t[1:])


def want_wav(L, N, j, lam, mu, s, nside=None):
    Lj, Nj = ref.wav_L(L, j, lam, mu), ref.wav_N(L, N, j, lam, mu)
    if s == "healpix":
        return (2 * Nj - 1, 12 * nside**2)
    return (2 * Nj - 1, ref.ntheta(Lj, s), ref.nphi(Lj, s))


SN = [(s, None) for s in S] + [("healpix", n) for n in (1, 2, 4, 16)]


def want_scal(L, J_min, lam, mu, s, nside=None):
    Ls = ref.scal_L(L, J_min, lam, mu)
    return (12 * nside**2,) if s == "healpix" else (ref.ntheta(Ls, s), ref.nphi(Ls, s))


def t_helpers(ctx, L, lam):
    import numpy as np

    sm = ctx.m.samples

    def eq(what, got, want, detail=""):
        ctx.state(what + str(detail))
        ctx.transition()
        if isinstance(want, tuple):
            got = tuple(int(x) for x in got)
        ctx.check(what, got == want, f"{detail}: got {got}, model says {want}")

    J = ref.j_max(L, lam)
    eq("j_max", ctx.call("j_max", sm.j_max, L, lam), J)
    ctx.check("scales cover the band-limit", lam**J >= L and (J == 0 or lam ** (J - 1) < L), f"J={J}")
    Ns = sorted({1, 2, 3, 4, 5, 6, min(L, 9), L})
    Ns = [n for n in Ns if n <= L]
    for mu in (True, False):
        for J_min in range(J):
            eq("scal_bandlimit", sm.scal_bandlimit(L, J_min, lam, mu), ref.scal_L(L, J_min, lam, mu), (J_min, mu))
            for s, ns in SN:
                eq("f_scal", sm.f_scal(L, J_min, lam, s, ns, mu), want_scal(L, J_min, lam, mu, s, ns), (J_min, s, ns, mu))
            eq("n_wav_scales", sm.n_wav_scales(L, 1, J_min, lam), J - J_min + 1, J_min)
        for j in range(J + 1):
            Lj = ref.wav_L(L, j, lam, mu)
            eq("wav_j_bandlimit", sm.wav_j_bandlimit(L, j, lam, mu), Lj, (j, mu))
            for N in Ns:
                Nj = ref.wav_N(L, N, j, lam, mu)
                a, b, c = sm.LN_j(L, j, N, lam, mu)
                ctx.state(("LN_j", j, N, mu))
                ctx.transition()
                ctx.check("LN_j", (int(a), int(b)) == (Lj, Nj), f"j={j} N={N} multires={mu}: got {(a, b)}, model says {(Lj, Nj)}")
                ctx.check("LN_j parity", (b - N) % 2 == 0 and b >= min(N, Lj) and b <= N + 1, f"j={j} N={N} Nj={b}")
                # the lower limit may drop nothing: multipoles of the scale are > lam^(j-1)
                lo = lam ** (j - 1) if j else 0.0
                ctx.check("LN_j lower limit", 0 <= c < Lj and c <= np.floor(lo) + 1, f"j={j} N={N} L0={c}")
                eq("flmn_wav_j", sm.flmn_wav_j(L, j, N, lam, mu), (2 * Nj - 1, Lj, 2 * Lj - 1), (j, N, mu))
                for s, ns in SN:
                    eq("f_wav_j", sm.f_wav_j(L, j, N, lam, s, ns, mu), want_wav(L, N, j, lam, mu, s, ns), (j, N, s, ns, mu))
    for j in range(J + 1):
        lo = lam ** (j - 1) if j else 0.0
        ctx.check("L0_j", 0 <= sm.L0_j(j, lam) <= np.floor(lo) + 1, f"j={j}: {sm.L0_j(j, lam)}")
    # documented defaults: full resolution, mw, N = 1, J_min = 0
    eq("f_scal default", sm.f_scal(L), want_scal(L, 0, 2.0, False, "mw"))
    eq("scal_bandlimit default", sm.scal_bandlimit(L), L)
    eq("f_wav_j default", sm.f_wav_j(L), want_wav(L, 1, 0, 2.0, False, "mw"))
    eq("n_wav_scales default", sm.n_wav_scales(L), ref.j_max(L, 2.0) + 1)
    if L <= 20:
        t_alloc(ctx, L, lam, J, Ns)
    ctx.trace()


def t_alloc(ctx, L, lam, J, Ns):
    import numpy as np

    from backends import to_np

    sm = ctx.m.samples
    for mu in (True, False):
        for J_min in range(J):
            Ls = ref.scal_L(L, J_min, lam, mu)
            for fn in (sm.construct_flm, sm.construct_flm_jax):
                ctx.close("construct_flm", ctx.call("construct_flm", fn, L, J_min, lam, mu), np.zeros((Ls, 2 * Ls - 1), complex))
            for N in Ns[:4]:
                sh = [(2 * ref.wav_N(L, N, j, lam, mu) - 1, ref.wav_L(L, j, lam, mu), 2 * ref.wav_L(L, j, lam, mu) - 1) for j in range(J_min, J + 1)]
                for name, r in (("construct_flmn", sm.construct_flmn(L, N, J_min, lam, mu)),
                                ("construct_flmn_jax", sm.construct_flmn_jax(L, N, J_min, None, lam, mu)),
                                ("construct_flmn_torch", sm.construct_flmn_torch(L, N, J_min, None, lam, mu))):
                    ctx.transition()
                    ctx.check(name + " length", len(r) == len(sh), f"{len(r)} vs {len(sh)}")
                    for x, s in zip(r, sh):
                        x = to_np(x)
                        ctx.check(name, x.shape == s and x.dtype == np.complex128 and not np.any(x), f"{x.shape} {x.dtype} vs {s}")
                for J_max in range(J_min, J + 1):
                    for name, fn in (("jax", sm.construct_flmn_jax), ("torch", sm.construct_flmn_torch)):
                        ctx.transition()
                        r = fn(L, N, J_min, J_max, lam, mu)
                        ctx.check("construct_flmn with J_max", [tuple(x.shape) for x in r] == sh[: J_max - J_min + 1], f"{name} J_max={J_max}")
                # minimal arrays for the scattering transform: one array, of the second finest scale
                x = ctx.call("construct_flmn(scattering)", sm.construct_flmn, L, N, J_min, lam, mu, True)
                w = (2 * ref.wav_N(L, N, J - 1, lam, mu) - 1, ref.wav_L(L, J - 1, lam, mu), 2 * ref.wav_L(L, J - 1, lam, mu) - 1)
                ctx.check("construct_flmn(scattering)", np.shape(x) == w and not np.any(x), f"J_min={J_min} N={N} multires={mu}: {np.shape(x)} vs {w}")
                for s, ns in [(s, None) for s in S] + [("healpix", 1), ("healpix", 2)]:
                    x = ctx.call("construct_f(scattering)", sm.construct_f, L, N, J_min, lam, s, ns, mu, True)
                    w = want_wav(L, N, J - 1, lam, mu, s, ns)
                    ctx.check("construct_f(scattering)", np.shape(x) == w and not np.any(x), f"J_min={J_min} N={N} {s} multires={mu}: {np.shape(x)} vs {w}")
                    if ns:
                        r = ctx.call("construct_f", sm.construct_f, L, N, J_min, lam, s, ns, mu)
                        w = [want_wav(L, N, j, lam, mu, s, ns) for j in range(J_min, J + 1)]
                        ctx.check("construct_f", [x.shape for x in r] == w and not any(np.any(x) for x in r), f"J_min={J_min} N={N} {s} nside={ns}")
                for s in S:
                    r = ctx.call("construct_f", sm.construct_f, L, N, J_min, lam, s, None, mu)
                    w = [want_wav(L, N, j, lam, mu, s) for j in range(J_min, J + 1)]
                    ctx.check("construct_f", [x.shape for x in r] == w and not any(np.any(x) for x in r), f"J_min={J_min} N={N} {s}")
                    if L <= 5:
                        shape_check(ctx, L, N, J_min, lam, mu, s, w)
            for J_max in range(J_min, J + 1):
                for fn in (sm.construct_f_jax, sm.construct_f_torch):
                    ctx.check("construct_f_jax/torch", len(fn(L, J_min, J_max, lam)) == J_max - J_min + 1, f"J_max={J_max}")
            for fn in (sm.construct_f_jax, sm.construct_f_torch):
                ctx.check("construct_f_jax/torch", len(fn(L, J_min, lam=lam)) == J - J_min + 1, "default J_max")


def shape_check(ctx, L, N, J_min, lam, mu, s, w):
    """wavelet_shape_check accepts exactly the right shapes."""
    import numpy as np

    sc = want_scal(L, J_min, lam, mu, s)
    chk = ctx.m.samples.wavelet_shape_check

    def ok(fw, fs):
        ctx.transition()
        try:
            chk(fw, fs, L, N, J_min, lam, s, None, mu)
            return True
        except Exception:
            return False

    z = [np.zeros(x) for x in w]
    ctx.check("shape check accepts the right shapes", ok(z, np.zeros(sc)), f"J_min={J_min} N={N} {s} multires={mu}")
    bad = [(z[:-1], np.zeros(sc)), (z + [z[-1]], np.zeros(sc))]
    for ax, d in itertools.product(range(2), (-1, 1)):
        q = list(sc)
        q[ax] += d
        bad.append((z, np.zeros(q)))
    for i, x in enumerate(w):
        for ax, d in itertools.product(range(3), (-1, 1)):
            q = list(x)
            q[ax] += d
            bad.append((z[:i] + [np.zeros(q)] + z[i + 1 :], np.zeros(sc)))
    for fw, fs in bad:
        ctx.check("shape check rejects wrong shapes", not ok(fw, fs), f"accepted {[x.shape for x in fw]}, {fs.shape}: J_min={J_min} N={N} {s} multires={mu}")


def t_support(ctx, L, lam):
    import numpy as np

    J = ref.j_max(L, lam)
    sm = ctx.m.samples
    for N in sorted({1, 2, 3, 5, min(L, 8)}):
        if N > L:
            continue
        for J_min in sorted({0, 1, J - 1} & set(range(J))):
            psi, phi = ctx.call("filters", ctx.m.filters.filters_directional_vectorised, L, N, J_min, lam)
            Ls = sm.scal_bandlimit(L, J_min, lam, True)
            ctx.check("scaling support", not np.any(phi[Ls:]), f"J_min={J_min}")
            for j in range(J_min, J + 1):
                Lj, Nj, L0 = sm.LN_j(L, j, N, lam, True)
                ctx.n["states"] += psi[j].size
                x = np.array(psi[j])
                inside = x[L0:Lj, L - Nj : L - 1 + Nj : 2].copy()
                x[L0:Lj, L - Nj : L - 1 + Nj : 2] = 0
                ctx.check("filter support inside the limits of its scale", not np.any(x), f"j={j} N={N} J_min={J_min}: limits {(Lj, Nj, L0)}")
                ctx.check("limits not empty", inside.size > 0 or not np.any(psi[j]), f"j={j}")
            ctx.trace()


def t_shapes(ctx, b, c):
    import numpy as np

    c = lat.cfg(c)
    B, sm = ctx.B, ctx.m.samples
    f = lat.signal(c, lat.generic_flm(c.L, c.spin, c.reality, ctx.seed))
    r = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, f)))
    if r is None:
        return
    w, s = r
    J = sm.j_max(c.L, c.lam)
    ctx.state("coefficients")
    ctx.check("number of scales returned", len(w) == sm.n_wav_scales(c.L, c.N, c.J_min, c.lam), len(w))
    for j in range(c.J_min, J + 1):
        ctx.check(f"shape of scale {j} ({b})", tuple(w[j - c.J_min].shape) == tuple(sm.f_wav_j(c.L, j, c.N, c.lam, c.sampling, c.nside, c.multires)), tuple(w[j - c.J_min].shape))
    ctx.check(f"shape of the scaling part ({b})", tuple(s.shape) == tuple(sm.f_scal(c.L, c.J_min, c.lam, c.sampling, c.nside, c.multires)), tuple(s.shape))
    ctx.call("wavelet_shape_check", sm.wavelet_shape_check, w, s, c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, c.multires)
    if lat.known_class(b, "synthesis", c) is None:  # zero coefficients of the reported shapes are accepted
        z = [B.arr(b, np.zeros(x, complex)) for x in (want_wav(c.L, c.N, j, c.lam, c.multires, c.sampling) for j in range(c.J_min, J + 1))]
        zs = B.arr(b, np.zeros(want_scal(c.L, c.J_min, c.lam, c.multires, c.sampling), complex))
        g = ctx.call(f"synthesis ({b})", B.synthesis, b, c, z, zs)
        ctx.close(f"synthesis of zero ({b})", g, np.zeros((ref.ntheta(c.L, c.sampling), ref.nphi(c.L, c.sampling))))
    ctx.trace()
