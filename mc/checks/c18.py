"""C18: unsupported or inconsistent requests are rejected; supported neighbours are accepted."""
import itertools

import numpy as np

import lat
import ref
from backends import Cfg

PROPERTY = "C18"
RULE = ("requests = function x one defective argument: every J_min in {-3..-1, J..J+2} for every filter generator and transform (plus every valid J_min, which must be accepted); "
        "unknown sampling names for every function that takes one; missing kernels; HEALPix in the SSHT backend; for the base synthesis and the shape check every single-axis "
        "perturbation (+-1, dropped, added, transposed axis) of every coefficient array, every missing, extra or swapped scale, and coefficients of the other resolution; each request is executed against the real code")
ASSUMPTIONS = ["assert statements are enabled (python without -O), which is how the base synthesis checks shapes", "J_min is checked by a transform that is left to build its own filters"]
CHUNK = 6
MODS = ("loop", "vec", "jax", "c", "pjax", "ptorch")
BAD_NAMES = ["foo", "", "mws", "mwsss", "hpx", "d h", "dhw", "g", "mw ss"]


def plan(tier):
    out = []
    Ls = [(L, N, lam) for L in ((3, 4, 5, 8) if tier == "quick" else range(2, 17)) for N in (1, 2, 3) for lam in (2.0, 3.0, 1.5, 2.5) if N <= L and ref.j_max(L, lam) >= 1]
    for L, N, lam in Ls:
        out.append(("eager", "jmin-filters", ["jfilt", L, N, lam]))
    for b in MODS:
        for L, N, lam in [(3, 1, 2.0), (4, 2, 2.0), (5, 3, 2.0), (4, 2, 3.0), (6, 2, 1.5)] + ([] if tier == "quick" else [(8, 3, 2.0), (9, 2, 2.5), (7, 4, 3.0)]):
            out.append(("eager", f"jmin-{b}", ["jtrans", b, L, N, lam, 0, "mw", False]))
        for spin, smp, real in [(1, "mw", False), (-2, "dh", False), (0, "mwss", True), (0, "gl", True)]:
            out.append(("eager", f"jmin-{b}", ["jtrans", b, 4, 2, 2.0, spin, smp, real]))
    for L, N in [(3, 1), (4, 2), (5, 3)] + ([] if tier == "quick" else [(8, 3), (7, 4)]):
        out.append(("eager", "sampling", ["samp", L, N]))
        out.append(("eager", "kernels", ["kern", L, N]))
        out.append(("eager", "healpix-c", ["hpxc", L, N]))
    sh = [Cfg(L, N, J, lam, 0, s, False, mr) for L, N, J, lam in [(4, 2, 0, 2.0), (5, 3, 1, 2.0), (6, 2, 2, 2.0), (4, 1, 0, 3.0), (6, 3, 1, 1.5), (3, 3, 0, 2.0)]
          for s in ("mw", "mwss", "dh", "gl") for mr in (True, False)]
    if tier == "thorough":
        sh += [Cfg(L, N, J, lam, 0, s, False, mr) for L, N, J, lam in [(8, 3, 2, 2.0), (9, 4, 0, 3.0), (7, 2, 1, 2.5), (8, 5, 0, 2.0)] for s in ("mw", "mwss", "dh", "gl") for mr in (True, False)]
    for c in sh:
        out.append(("eager", "shape", ["shape", list(c)]))
    for L, N, J, nside in [(6, 2, 1, 2), (8, 2, 2, 2), (4, 3, 0, 1)]:
        for mr in (True, False):
            out.append(("eager", "shape-hpx", ["shapeh", L, N, J, nside, mr]))
    return out


def refuse(ctx, what, fn):
    ctx.transition()
    ctx.n["comparisons"] += 1
    try:
        r = fn()
    except Exception as e:  # noqa: BLE001
        ctx.outcome("rejected: " + type(e).__name__)
        ctx.trace()
        return
    ctx.fail(what + ": accepted", f"returned {type(r).__name__}")


def accept(ctx, what, fn):
    ctx.call(what, fn)
    ctx.outcome("accepted")
    ctx.trace()


def fns(m, b):
    mod = {"loop": m.base, "vec": m.base, "jax": m.wavelet, "c": m.wavelet_c, "pjax": m.pre, "ptorch": m.pret}[b]
    if b == "loop":
        return mod.analysis_looped, mod.synthesis_looped, None
    return mod.analysis, mod.synthesis, getattr(mod, "flm_to_analysis", None)


def run(ctx, t):
    globals()["r_" + t[0]](ctx, *t[1:])


def r_jfilt(ctx, L, N, lam):
    F = ctx.m.filters
    J = ref.j_max(L, lam)
    gens = [(g, (lambda Jm, g=g: getattr(F, g)(L, Jm, lam))) for g in ("filters_axisym", "filters_axisym_vectorised", "filters_axisym_jax")]
    gens += [(g, (lambda Jm, g=g: getattr(F, g)(L, N, Jm, lam))) for g in ("filters_directional", "filters_directional_vectorised", "filters_directional_jax")]
    gens += [(g + " torch", (lambda Jm, g=g: getattr(F, g)(L, N, Jm, lam, using_torch=True))) for g in ("filters_directional", "filters_directional_vectorised")]
    gens += [(g + " spin", (lambda Jm, g=g: getattr(F, g)(L, N, Jm, lam, 1, 0))) for g in ("filters_directional", "filters_directional_vectorised")]
    for name, g in gens:
        for Jm in (-3, -2, -1, J, J + 1, J + 2, J + 20):
            ctx.state((name, Jm))
            refuse(ctx, f"{name} L={L} N={N} lam={lam} J_min={Jm} (J={J})", lambda: g(Jm))
        for Jm in range(J):
            ctx.state((name, Jm))
            accept(ctx, f"{name} L={L} N={N} lam={lam} J_min={Jm} (J={J})", lambda: g(Jm))


def material(ctx, b, c):
    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)
    hw, hs = lat.generic_coeffs(c, ctx.seed)
    mw, ms = lat.coeff_maps(c, hw, hs)
    arr = ctx.B.arr
    return arr(b, flm), arr(b, lat.signal(c, flm)), [arr(b, x) for x in mw], arr(b, ms)


def r_jtrans(ctx, b, L, N, lam, spin, smp, real):
    an, sy, fl = fns(ctx.m, b)
    J = ref.j_max(L, lam)
    for good in range(J):
        c = Cfg(L, N, good, lam, spin, smp, real)
        o = dict(lam=lam, spin=spin, sampling=smp, reality=real)
        of = dict(lam=lam, sampling=smp, reality=real)
        if lat.known_class(b, "synthesis", c) or lat.known_class(b, "analysis", c):
            continue
        flm, f, w, s = material(ctx, b, c)
        ka = {"precomps": ctx.B.precomps(b, c, False)} if b in ("pjax", "ptorch") else {}
        ks = {"precomps": ctx.B.precomps(b, c, True)} if b in ("pjax", "ptorch") else {}
        accept(ctx, f"{b} analysis {c}", lambda: an(f, L, N, good, **o, **ka))
        accept(ctx, f"{b} synthesis {c}", lambda: sy(w, s, L, N, good, **o, **ks))
        for Jm in (-3, -2, -1, J, J + 1, J + 2, J + 20):
            ctx.state((b, good, Jm))
            refuse(ctx, f"{b} analysis {c} with J_min={Jm}", lambda: an(f, L, N, Jm, **o, **ka))
            refuse(ctx, f"{b} synthesis {c} with J_min={Jm}", lambda: sy(w, s, L, N, Jm, **o, **ks))
            if fl:
                refuse(ctx, f"{b} flm_to_analysis {c} with J_min={Jm}", lambda: fl(flm, L, N, Jm, **of, **ka))


def r_samp(ctx, L, N):
    m = ctx.m
    c = Cfg(L, N, 0, 2.0, 0, "mw")
    S, co = m.samples, m.construct
    for bad in BAD_NAMES + ["healpix"]:  # HEALPix without nside is as meaningless
        ctx.state(bad)
        calls = [("f_wav_j", lambda: S.f_wav_j(L, 1, N, 2.0, bad)), ("f_scal", lambda: S.f_scal(L, 0, 2.0, bad)), ("construct_f", lambda: S.construct_f(L, N, 0, 2.0, bad)),
                 ("generate_full_precomputes", lambda: co.generate_full_precomputes(L, N, 0, 2.0, bad)),
                 ("generate_full_precomputes torch", lambda: co.generate_full_precomputes(L, N, 0, 2.0, bad, using_torch=True)),
                 ("generate_wigner_precomputes", lambda: co.generate_wigner_precomputes(L, N, 0, 2.0, bad))]
        for b in ("loop", "vec", "jax", "c"):
            an, sy, fl = fns(m, b)
            flm, f, w, s = material(ctx, b, c)
            calls += [(b + " analysis", lambda an=an, f=f: an(f, L, N, 0, sampling=bad)), (b + " synthesis", lambda sy=sy, w=w, s=s: sy(w, s, L, N, 0, sampling=bad))]
            if fl:
                calls.append((b + " flm_to_analysis", lambda fl=fl, flm=flm: fl(flm, L, N, 0, sampling=bad)))
        for name, fn in calls:
            refuse(ctx, f"{name} L={L} N={N} sampling={bad!r}", fn)


def r_kern(ctx, L, N):
    for b in ("pjax", "ptorch"):
        an, sy, fl = fns(ctx.m, b)
        for J in range(ref.j_max(L, 2.0)):
            for s_ in ("mw", "dh", "mwss", "gl"):
                for real in (False, True):
                    c = Cfg(L, N, J, 2.0, 0, s_, real)
                    flm, f, w, s = material(ctx, b, c)
                    for filt in (None, ctx.B.filt(b, c)):
                        ctx.state((b, J, s_, real, filt is None))
                        fa = {} if filt is None else {"filters": filt}
                        ff = {} if filt is None else {"filters": filt[0]}
                        refuse(ctx, f"{b} analysis {c} without kernels", lambda: an(f, L, N, J, sampling=s_, reality=real, **fa))
                        refuse(ctx, f"{b} synthesis {c} without kernels", lambda: sy(w, s, L, N, J, sampling=s_, reality=real, **fa))
                        refuse(ctx, f"{b} flm_to_analysis {c} without kernels", lambda: fl(flm, L, N, J, sampling=s_, reality=real, **ff))


def r_hpxc(ctx, L, N):
    an, sy, fl = fns(ctx.m, "c")
    for J in range(ref.j_max(L, 2.0)):
        for real in (False, True):
            c = Cfg(L, N, J, 2.0, 0, "mw", real)
            flm, f, w, s = material(ctx, "c", c)
            for filt in (None, ctx.B.filt("c", c)):
                ctx.state((J, real, filt is None))
                refuse(ctx, f"c analysis {c} healpix", lambda: an(f, L, N, J, sampling="healpix", reality=real, filters=filt))
                refuse(ctx, f"c synthesis {c} healpix", lambda: sy(w, s, L, N, J, sampling="healpix", reality=real, filters=filt))
                # maps with as many samples as HEALPix maps would have
                h = np.zeros(12, complex)
                refuse(ctx, f"c analysis {c} of a HEALPix map", lambda: an(h, L, N, J, sampling="healpix", reality=real, filters=filt))


def perturb(shape):
    """Every shape one step away from `shape`."""
    out = []
    for a in range(len(shape)):
        for d in (-1, 1):
            q = list(shape)
            q[a] += d
            if q[a] >= 0:
                out.append(tuple(q))
        if shape[a] > 2:
            out.append(tuple(shape[:a]) + (1,) + tuple(shape[a + 1:]))
        out.append(tuple(shape[:a]) + tuple(shape[a + 1:]))
    out += [(1,) + tuple(shape), tuple(shape) + (1,), (int(np.prod(shape)),)] + list(itertools.permutations(shape))
    return [s for s in dict.fromkeys(out) if s != tuple(shape)]


def shape_family(ctx, tag, ws, ss, args, fns_):
    """Every perturbation of the right shapes (ws, ss) is refused by every function in fns_."""
    def z(s):
        return np.zeros(s, complex)

    good_w, good_s = [z(x) for x in ws], z(ss)
    for name, fn in fns_:
        accept(ctx, f"{name} {tag}", lambda: fn(list(good_w), good_s))
        for j in range(len(ws)):
            for q in perturb(ws[j]):
                ctx.state((name, j, q))
                bad = list(good_w)
                bad[j] = z(q)
                refuse(ctx, f"{name} {tag} scale entry {j} of shape {q} instead of {ws[j]}", lambda: fn(bad, good_s))
        for q in perturb(ss):
            ctx.state((name, "s", q))
            refuse(ctx, f"{name} {tag} scaling of shape {q} instead of {ss}", lambda: fn(list(good_w), z(q)))
        for k in range(len(ws)):
            ctx.state((name, "drop", k))
            refuse(ctx, f"{name} {tag} without scale entry {k}", lambda: fn(good_w[:k] + good_w[k + 1:], good_s))
        for extra in (good_w + [good_w[-1]], [good_w[0]] + good_w, []):
            ctx.state((name, "n", len(extra)))
            refuse(ctx, f"{name} {tag} with {len(extra)} scales instead of {len(ws)}", lambda: fn(extra, good_s))
        for j in range(len(ws) - 1):
            if ws[j] != ws[j + 1]:
                bad = list(good_w)
                bad[j], bad[j + 1] = bad[j + 1], bad[j]
                refuse(ctx, f"{name} {tag} with scales {j} and {j + 1} swapped", lambda: fn(bad, good_s))


def r_shape(ctx, cl):
    c = Cfg(*cl)
    m = ctx.m

    def shapes(mr):
        d = c._replace(multires=mr)
        return [tuple(x.shape) for x in lat.coeff_maps(d, *lat.generic_coeffs(d, ctx.seed))[0]], tuple(lat.coeff_maps(d, *lat.generic_coeffs(d, ctx.seed))[1].shape)

    ws, ss = shapes(c.multires)
    a = (c.L, c.N, c.J_min, c.lam)
    fs = [("wavelet_shape_check", lambda w, s: m.samples.wavelet_shape_check(w, s, *a, c.sampling, None, c.multires)),
          ("vectorised synthesis", lambda w, s: m.base.synthesis(w, s, *a, 0, 0, c.sampling, None, c.reality, c.multires)),
          ("looped synthesis", lambda w, s: m.base.synthesis_looped(w, s, *a, 0, 0, c.sampling, None, c.reality, c.multires))]
    shape_family(ctx, str(c), ws, ss, a, fs)
    ow, os_ = shapes(not c.multires)
    if (ow, os_) != (ws, ss):
        for name, fn in fs:
            refuse(ctx, f"{name} {c} with coefficients of the other resolution", lambda: fn([np.zeros(x, complex) for x in ow], np.zeros(os_, complex)))


def r_shapeh(ctx, L, N, J_min, nside, mr):
    m = ctx.m
    a = (L, N, J_min, 2.0)
    npix = 12 * nside**2
    ws = []
    for j in range(J_min, ref.j_max(L, 2.0) + 1):
        Nj = ref.wav_N(L, N, j, 2.0, mr)
        ws.append((2 * Nj - 1, npix))
    fs = [("wavelet_shape_check", lambda w, s: m.samples.wavelet_shape_check(w, s, *a, "healpix", nside, mr))]
    shape_family(ctx, f"healpix {a} nside={nside} multires={mr}", ws, (npix,), a, fs)
