"""Signals, coefficient alphabets and configuration lattices shared by the checks."""
import math

import numpy as np

import ref
from backends import Cfg  # noqa: F401


# ----------------------------------------------------------------------------- signals
def rng_for(seed, *key):
    import zlib

    return np.random.default_rng([seed, zlib.crc32(repr(key).encode())])


def generic_flm(L, spin, real, seed=1):
    """A signal with every admissible harmonic coefficient present and unrelated to the others."""
    r = rng_for(seed, "flm", L, spin, real)
    flm = np.zeros((L, 2 * L - 1), complex)
    for l, m in ref.sph_modes(L, spin):
        flm[l, L - 1 + m] = complex(*(r.uniform(0.5, 1.5, 2) * r.choice([-1, 1], 2)))
    return realify(flm, L) if real else flm


def realify(flm, L):
    out = np.array(flm)
    for l in range(L):
        out[l, L - 1] = out[l, L - 1].real
        for m in range(1, l + 1):
            out[l, L - 1 - m] = (-1) ** m * np.conj(out[l, L - 1 + m])
    return out


def basis_flm(L, spin, real):
    """A real basis of the signal space: every coefficient alone, with weights 1 and i."""
    out = []
    for l, m in ref.sph_modes(L, spin):
        if real and m < 0:
            continue
        for w in (1.0, 1j):
            if real and m == 0 and w != 1.0:
                continue
            flm = np.zeros((L, 2 * L - 1), complex)
            flm[l, L - 1 + m] = w
            out.append(((l, m, "1" if w == 1.0 else "i"), realify(flm, L) if real else flm))
    return out


def generic_flmn(Lj, Nj, real, seed=1, key=0, n_only=None):
    """Wigner coefficients with every (l, m, n) present; real: those of a real function."""
    r = rng_for(seed, "flmn", Lj, Nj, real, key)
    w = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), complex)
    for n in range(-Nj + 1, Nj):
        for l in range(abs(n), Lj):
            w[Nj - 1 + n, l, Lj - 1 - l : Lj + l] = (r.uniform(0.5, 1.5, 2 * l + 1) * r.choice([-1, 1], 2 * l + 1)) + 1j * (
                r.uniform(0.5, 1.5, 2 * l + 1) * r.choice([-1, 1], 2 * l + 1)
            )
    return realify_so3(w, Lj, Nj) if real else w


def realify_so3(w, Lj, Nj):
    out = np.array(w)
    m = np.arange(-Lj + 1, Lj)
    for n in range(0, Nj):
        out[Nj - 1 - n] = ((-1.0) ** (m + n)) * np.conj(out[Nj - 1 + n][:, ::-1])
        if n == 0:
            # n = 0 plane: make it symmetric under m -> -m
            a = w[Nj - 1]
            out[Nj - 1] = 0.5 * (a + ((-1.0) ** m) * np.conj(a[:, ::-1]))
    return out


def generic_coeffs(c, seed=1):
    """Harmonic coefficients (wavelet per scale, scaling) of arbitrary band-limited maps."""
    J = ref.j_max(c.L, c.lam)
    wav = []
    for j in range(c.J_min, J + 1):
        Lj, Nj = ref.wav_L(c.L, j, c.lam, c.multires), ref.wav_N(c.L, c.N, j, c.lam, c.multires)
        wav.append(generic_flmn(Lj, Nj, c.reality, seed, j))
    Ls = ref.scal_L(c.L, c.J_min, c.lam, c.multires)
    return wav, generic_flm(Ls, c.spin, c.reality, seed + 1)


def coeff_maps(c, wav, scal):
    """Evaluate harmonic coefficients on the sampling grids."""
    J = ref.j_max(c.L, c.lam)
    out = []
    for i, j in enumerate(range(c.J_min, J + 1)):
        Lj, Nj = ref.wav_L(c.L, j, c.lam, c.multires), ref.wav_N(c.L, c.N, j, c.lam, c.multires)
        x = ref.so3_field(wav[i], Lj, Nj, c.sampling)
        out.append(x.real if c.reality else x)
    Ls = ref.scal_L(c.L, c.J_min, c.lam, c.multires)
    s = ref.sph_field(scal, Ls, c.spin, c.sampling)
    return out, (s.real if c.reality else s)


def signal(c, flm):
    f = ref.sph_field(flm, c.L, c.spin, c.sampling)
    return f.real if c.reality else f


def model_analysis(c, flm):
    return ref.analysis(flm, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.multires)


def model_synthesis_flm(c, wav, scal):
    psi, phi = ref.filters(c.L, c.N, c.J_min, c.lam, c.spin)
    return ref.harm_synthesis(wav, scal, c.L, c.N, c.J_min, c.lam, psi, phi, c.spin, c.multires)


# amplitudes and spectral slopes: departures from linearity and thresholds, absolute or relative
AMPS = [("zero", 1e-30), ("2^-100", 2.0**-100), ("1e-9", 1e-9), ("1e9", 1e9), ("2^100", 2.0**100), ("red", 1.0), ("blue", 1.0)]


def shaped(x, name):
    """Harmonic coefficients x (multipole on the last but one axis) scaled or tilted as in AMPS."""
    if name == "zero":
        return 0 * x
    if name in ("red", "blue"):
        l = np.linspace(0, 1, x.shape[-2]) if x.shape[-2] > 1 else np.zeros(1)
        return x * (10.0 ** (-7 * (l if name == "red" else 1 - l)))[:, None]
    return x * dict(AMPS)[name]


def exact(name, x):
    """Make a map that is real or imaginary up to rounding exactly so (its type stays complex)."""
    return x.real + 0j if name == "real-valued" else 1j * x.imag if name == "imaginary" else x


# ----------------------------------------------------------------------------- lattices
def lattice(Ls, Ns, lams, spins, samplings, realities=(False, True), multires=(True,), jmins=None, nmax=None):
    """Every supported configuration of the product, simplest first."""
    out = []
    for L in Ls:
        for lam in lams:
            J = ref.j_max(L, lam)
            for J_min in range(J):
                if jmins is not None and J_min not in [x if x >= 0 else J + x for x in jmins]:
                    continue
                for N in Ns:
                    N = L if N == "L" else N
                    if N > L:
                        continue
                    for spin in spins:
                        if abs(spin) >= L:
                            continue
                        for mu in multires:
                            for real in realities:
                                if real and spin:
                                    continue
                                for s in samplings:
                                    c = Cfg(L, N, J_min, lam, spin, s, real, mu)
                                    if c not in out[-60:]:
                                        out.append(c)
    seen, uniq = set(), []
    for c in out:
        k = (type(c.lam).__name__,) + tuple(c)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    return uniq


def tolerance(c, tol):
    """Square roots of cancelling differences (filter values below 3e-6) carry errors near 1e-8."""
    k, k0 = ref.kappa(c.L, c.J_min, c.lam)
    ell = np.arange(c.L)
    v = [k0[ell < c.lam**c.J_min]]
    for j in range(c.J_min, len(k)):
        v.append(k[j][(ell > c.lam ** (j - 1)) & (ell < c.lam ** (j + 1))])
    v = np.concatenate(v)
    # interior values only; those that vanish do so because the difference rounded to zero
    return max(tol, 3e-7) if c.L > 16 and v.size and v.min() < 3e-6 else tol


def cfg(t):
    return Cfg(*t)


def group_of(c):
    """Configurations that share compiled kernels."""
    return f"{c.sampling}-{c.L}-{c.lam}-{int(c.reality)}"


def known_class(b, op, c):
    """Id of the listed finding a call falls into, if any (see known_findings.json)."""
    if b in ("pjax", "ptorch") and op == "synthesis" and c.N == 1 and c.sampling in ("mw", "mwss"):
        return "F1"
    if b == "c":
        J = ref.j_max(c.L, c.lam)
        for j in range(c.J_min, J + 1):
            if ref.wav_N(c.L, c.N, j, c.lam) > ref.wav_L(c.L, j, c.lam):
                return "F2"
    return None


KNOWN_EXC = {"F1": IndexError, "F2": RuntimeError}


def guarded(ctx, b, op, c, fn):
    """Run fn; a listed finding that fails the way it is listed returns None and is recorded."""
    k = known_class(b, op, c)
    if k is None:
        return ctx.call(f"{op} ({b})", fn)
    ctx.transition()
    try:
        return fn()
    except KNOWN_EXC[k]:
        ctx.known.append(k)
        return None
    except Exception as e:
        ctx.fail(f"{op} ({b}) raised {type(e).__name__}", str(e)[:300])


# ----------------------------------------------------------------------------- the transform conformance step
def conform(ctx, b, c, inputs="generic", tol=1e-9, synth=True, recon=True):
    """Replay the model's traces of one configuration on implementation b.

    signal --analysis--> coefficients --synthesis--> signal, and
    arbitrary band-limited coefficients --synthesis--> signal; every step is compared with the
    reference model.
    """
    B = ctx.B
    seed = ctx.seed
    tol = tolerance(c, tol)
    if inputs == "generic":
        sig = [("generic", generic_flm(c.L, c.spin, c.reality, seed), 1.0)]
    elif inputs == "basis":
        sig = [(k, x, 1.0) for k, x in basis_flm(c.L, c.spin, c.reality)]
    elif inputs == "amp":
        g = generic_flm(c.L, c.spin, c.reality, seed)
        sig = [(n, shaped(g, n), a) for n, a in AMPS]
        if c.spin == 0 and not c.reality:
            sig += [("real-valued", realify(g, c.L), 1.0), ("imaginary", 1j * realify(g, c.L), 1.0)]
    else:
        raise KeyError(inputs)
    for name, flm, amp in sig:
        f = exact(name, signal(c, flm))
        rw, rs = model_analysis(c, flm)
        ctx.state(("signal", name))
        res = guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, f)))
        if res is None:
            break
        ctx.check("analysis returns (wavelets, scaling)", isinstance(res, (tuple, list)) and len(res) == 2, type(res))
        w, s = res
        ctx.check("number of wavelet scales", len(w) == len(rw), f"{len(w)} scales, expected {len(rw)}")
        ctx.state(("coefficients", name))
        for i, (x, y) in enumerate(zip(w, rw)):
            ctx.close(f"wavelet coefficients at scale j={c.J_min + i} ({b}, input {name})", x, y, tol, max(amp, float(abs(y).max())))
        ctx.close(f"scaling coefficients ({b}, input {name})", s, rs, tol, max(amp, float(abs(rs).max())))
        if recon:
            g = guarded(ctx, b, "synthesis", c, lambda: B.synthesis(b, c, w, s))
            if g is not None:
                ctx.close(f"reconstruction ({b}, input {name})", g, f, tol, max(amp, float(abs(f).max())))
        ctx.trace()
    if not synth:
        return
    if inputs == "generic":
        hw, hs = generic_coeffs(c, seed)
        cases = [("coeffs", hw, hs)]
    elif inputs == "basis":
        cases = []
        hw, hs = generic_coeffs(c, seed)
        zw = [0 * x for x in hw]
        for i in range(len(hw)):  # one scale at a time, one orientation mode at a time
            Nj = (hw[i].shape[0] + 1) // 2
            for n in range(-Nj + 1, Nj):
                if c.reality and n < 0:
                    continue
                x = 0 * hw[i]
                x[Nj - 1 + n] = hw[i][Nj - 1 + n]
                x[Nj - 1 - n] = hw[i][Nj - 1 - n] if c.reality else x[Nj - 1 - n]
                cases.append((f"j={c.J_min + i},n={n}", zw[:i] + [x] + zw[i + 1 :], 0 * hs))
        cases.append(("scaling", zw, hs))
    else:
        hw, hs = generic_coeffs(c, seed)
        cases = [(n, [shaped(x, n) for x in hw], shaped(hs, n)) for n, _ in AMPS]
        if c.spin == 0 and not c.reality:
            rw = [realify_so3(x, x.shape[1], (x.shape[0] + 1) // 2) for x in hw]
            rs = realify(hs, hs.shape[0])
            cases += [("real-valued", rw, rs), ("imaginary", [1j * x for x in rw], 1j * rs)]
    amps = dict(AMPS)
    for name, hw, hs in cases:
        mw, ms = coeff_maps(c, hw, hs)
        mw, ms = [exact(name, x) for x in mw], exact(name, ms)
        ctx.state(("maps", name))
        want = signal(c, model_synthesis_flm(c, hw, hs))
        g = guarded(ctx, b, "synthesis", c, lambda: B.synthesis(b, c, [B.arr(b, x) for x in mw], B.arr(b, ms)))
        if g is None:
            break
        ctx.close(f"synthesis ({b}, {name})", g, want, tol, max(amps.get(name, 1.0), float(abs(want).max())))
        ctx.trace()
