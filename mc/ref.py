"""Reference model of the scale-discretised directional spin wavelet transform.

Written from the published definitions only (Leistedt et al. 2013, McEwen et al.
2015, and the sampling-theorem papers for the grids).  It imports neither s2wav nor
s2fft: plain numpy, dense matrices, no fast algorithm, no shared slicing tricks.

Conventions
-----------
flm[l, L-1+m]            spin-s harmonic coefficients
f(theta, phi)            = sum_lm flm * sYlm(theta, phi)
sYlm                     = (-1)^s sqrt((2l+1)/4pi) d^l_{m,-s}(theta) e^{i m phi}
W(alpha,beta,gamma)      = sum_lmn (2l+1)/(8 pi^2) Wlmn e^{i m alpha} d^l_{mn}(beta) e^{i n gamma}
analysis                 Wlmn^j = 8 pi^2/(2l+1) flm conj(Psi^j_ln),  Wlm^phi = sqrt(4 pi/(2l+1)) flm Phi_l
synthesis                flm = sum_jn Wlmn^j Psi^j_ln + sqrt(4 pi/(2l+1)) Wlm^phi Phi_l
"""
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np

SAMPLINGS = ("mw", "mwss", "dh", "gl")


# --------------------------------------------------------------------------- scales
@lru_cache(maxsize=None)
def j_max(L, lam):
    """Smallest J >= 0 with lam^J >= L (exact rational arithmetic on the float lam)."""
    p, J, fl = Fraction(1), 0, Fraction(lam)
    while p < L:
        p *= fl
        J += 1
    return J


def _ceil_pow(lam, e):
    """ceil(lam**e) evaluated in floating point, the way band-limits are documented."""
    return math.ceil(lam**e)


def scal_L(L, J_min, lam, multires=True):
    return min(_ceil_pow(lam, J_min), L) if multires else L


def wav_L(L, j, lam, multires=True):
    return min(_ceil_pow(lam, max(j, 1) + 1), L) if multires else L


def wav_L0(j, lam, multires=True):
    return _ceil_pow(lam, max(j, 1) - 1) if multires else 0


def wav_N(L, N, j, lam, multires=True):
    if not multires:
        return N
    Nj = min(N, wav_L(L, j, lam))
    return Nj + (Nj + N) % 2


# --------------------------------------------------------------------------- grids
def ntheta(L, sampling):
    return {"mw": L, "mwss": L + 1, "dh": 2 * L, "gl": L}[sampling]


def nphi(L, sampling):
    return 2 * L if sampling == "mwss" else 2 * L - 1


def thetas(L, sampling):
    if sampling == "mw":
        return np.array([math.pi * (2 * t + 1) / (2 * L - 1) for t in range(L)])
    if sampling == "mwss":
        return np.array([math.pi * t / L for t in range(L + 1)])
    if sampling == "dh":
        return np.array([math.pi * (2 * t + 1) / (4 * L) for t in range(2 * L)])
    if sampling == "gl":
        return np.sort(np.arccos(np.polynomial.legendre.leggauss(L)[0]))
    raise ValueError(sampling)


def phis(L, sampling):
    n = nphi(L, sampling)
    return 2 * math.pi * np.arange(n) / n


def gammas(N):
    return 2 * math.pi * np.arange(2 * N - 1) / (2 * N - 1)


# --------------------------------------------------------------------------- Wigner d
@lru_cache(maxsize=None)
def _jy_eig(l):
    m = np.arange(-l, l + 1)
    jp = np.zeros((2 * l + 1, 2 * l + 1), complex)
    for i in range(2 * l):
        jp[i + 1, i] = math.sqrt((l - m[i]) * (l + m[i] + 1))
    jy = (jp - jp.conj().T) / 2j
    w, v = np.linalg.eigh(jy)
    return np.round(w), v


@lru_cache(maxsize=None)
def _wigner_d_cached(l, betas):
    w, v = _jy_eig(l)
    return np.stack([np.real((v * np.exp(-1j * b * w)) @ v.conj().T) for b in betas])


def wigner_d(l, betas):
    """d^l_{mn}(beta): array [beta, l+m, l+n] = exp(-i beta J_y)."""
    return _wigner_d_cached(l, tuple(float(b) for b in betas))


# --------------------------------------------------------------------------- dense inverse transforms
@lru_cache(maxsize=None)
def sph_modes(L, spin, el_min=None):
    lo = abs(spin) if el_min is None else max(abs(spin), el_min)
    return [(l, m) for l in range(lo, L) for m in range(-l, l + 1)]


def sph_field(flm, L, spin, sampling):
    """Evaluate sum flm sYlm on the grid: [ntheta, nphi]."""
    th, ph = thetas(L, sampling), phis(L, sampling)
    ftm = np.zeros((len(th), 2 * L - 1), complex)
    for l in range(abs(spin), L):
        d = wigner_d(l, th)[:, :, l - spin] * ((-1) ** spin * math.sqrt((2 * l + 1) / (4 * math.pi)))
        ftm[:, L - 1 - l : L + l] += d * flm[l, L - 1 - l : L + l]
    return ftm @ np.exp(1j * np.outer(np.arange(-L + 1, L), ph))


def so3_field(flmn, L, N, sampling):
    """Evaluate the Wigner series on the (gamma, beta, alpha) grid."""
    th, ph, ga = thetas(L, sampling), phis(L, sampling), gammas(N)
    e_m = np.exp(1j * np.outer(np.arange(-L + 1, L), ph))
    out = np.zeros((2 * N - 1, len(th), len(ph)), complex)
    for n in range(-N + 1, N):
        g = np.zeros((len(th), 2 * L - 1), complex)
        for l in range(abs(n), L):
            d = wigner_d(l, th)[:, :, l + n] * ((2 * l + 1) / (8 * math.pi**2))
            g[:, L - 1 - l : L + l] += d * flmn[N - 1 + n, l, L - 1 - l : L + l]
        out += np.exp(1j * n * ga)[:, None, None] * (g @ e_m)[None]
    return out


# --------------------------------------------------------------------------- filters
def _quad(a, lam, n=300):
    """Trapezium rule, n panels on [a, 1], of s_lam(t)^2/t; s_lam vanishes outside (1/lam, 1)."""
    if a >= 1.0:
        return 0.0
    h = (1.0 - a) / n
    x = a + h * np.arange(n + 1)
    s = (x - 1.0 / lam) * (2.0 * lam / (lam - 1.0)) - 1.0
    y = np.zeros(n + 1)
    ok = np.abs(s) < 1.0
    ok[-1] = False
    y[ok] = np.exp(-2.0 / (1.0 - s[ok] ** 2)) / x[ok]
    return float(np.sum((y[:-1] + y[1:]) * h / 2))


@lru_cache(maxsize=None)
def k_lam(L, lam):
    """k_lambda(l/lam^j) for j = 0..J+1, l = 0..L-1."""
    J = j_max(L, lam)
    norm = _quad(1.0 / lam, lam)
    k = np.zeros((J + 2, L))
    for j in range(J + 2):
        for l in range(L):
            if l <= lam ** (j - 1):
                k[j, l] = 1.0
            elif l < lam**j:
                k[j, l] = _quad(l / lam**j, lam) / norm
    return k


@lru_cache(maxsize=None)
def kappa(L, J_min, lam):
    """(kappa[j, l], kappa0[l]) with rows j < J_min identically zero."""
    k = k_lam(L, lam)
    kap = np.sqrt(np.maximum(k[1:] - k[:-1], 0.0))
    kap[:J_min] = 0.0
    return kap, np.sqrt(k[J_min])


@lru_cache(maxsize=None)
def direction(L, N):
    s = np.zeros((L, 2 * L - 1), complex)
    nu = 1.0 if N % 2 else 1j
    for l in range(1, L):
        gam = min(N - 1, l) if (N + l) % 2 else min(N - 1, l - 1)
        for m in range(-gam, gam + 1):
            if (gam - m) % 2 == 0:
                s[l, L - 1 + m] = nu * math.sqrt(math.comb(gam, (gam - m) // 2) / 2**gam)
    return s


def spin_norm(l, s):
    """sqrt((l+s)!/(l-s)!)"""
    a = abs(s)
    f = 1
    for k in range(l - a + 1, l + a + 1):
        f *= k
    return math.sqrt(f) if s > 0 else math.sqrt(1.0 / f) if s < 0 else 1.0


@lru_cache(maxsize=None)
def filters(L, N, J_min, lam, spin=0, spin0=0):
    """(psi[j, l, L-1+n], phi[l])"""
    kap, kap0 = kappa(L, J_min, lam)
    el_min = max(abs(spin), abs(spin0))
    J = j_max(L, lam)
    psi = np.zeros((J + 1, L, 2 * L - 1), complex)
    phi = np.zeros(L)
    s = direction(L, N)
    for l in range(el_min, L):
        sn = spin_norm(l, spin0) * (-1) ** spin0
        phi[l] = math.sqrt((2 * l + 1) / (4 * math.pi)) * kap0[l] * sn
        psi[:, l, :] = math.sqrt((2 * l + 1) / (8 * math.pi**2)) * kap[:, l, None] * s[l][None] * sn
    psi.setflags(write=False)
    phi.setflags(write=False)
    return psi, phi


# --------------------------------------------------------------------------- transforms
def harm_analysis(flm, L, N, J_min, lam, psi, phi, spin=0, multires=True, J_top=None):
    """Wigner coefficients per scale and scaling harmonic coefficients."""
    J = j_max(L, lam) if J_top is None else J_top
    wav = []
    for j in range(J_min, J + 1):
        Lj, Nj = wav_L(L, j, lam, multires), wav_N(L, N, j, lam, multires)
        w = np.zeros((2 * Nj - 1, Lj, 2 * Lj - 1), complex)
        for l in range(abs(spin), Lj):
            for n in range(-min(Nj - 1, l), min(Nj - 1, l) + 1):
                c = np.conj(psi[j, l, L - 1 + n]) * 8 * math.pi**2 / (2 * l + 1)
                if c:
                    w[Nj - 1 + n, l, Lj - 1 - l : Lj + l] = c * flm[l, L - 1 - l : L + l]
        wav.append(w)
    Ls = scal_L(L, J_min, lam, multires)
    s = np.zeros((Ls, 2 * Ls - 1), complex)
    for l in range(abs(spin), Ls):
        s[l, Ls - 1 - l : Ls + l] = math.sqrt(4 * math.pi / (2 * l + 1)) * phi[l] * flm[l, L - 1 - l : L + l]
    return wav, s


def harm_synthesis(wav, scal, L, N, J_min, lam, psi, phi, spin=0, multires=True):
    flm = np.zeros((L, 2 * L - 1), complex)
    for i, w in enumerate(wav):
        j = J_min + i
        Lj, Nj = wav_L(L, j, lam, multires), wav_N(L, N, j, lam, multires)
        for l in range(abs(spin), Lj):
            for n in range(-min(Nj - 1, l), min(Nj - 1, l) + 1):
                c = psi[j, l, L - 1 + n]
                if c:
                    flm[l, L - 1 - l : L + l] += c * w[Nj - 1 + n, l, Lj - 1 - l : Lj + l]
    Ls = scal_L(L, J_min, lam, multires)
    for l in range(abs(spin), Ls):
        flm[l, L - 1 - l : L + l] += math.sqrt(4 * math.pi / (2 * l + 1)) * phi[l] * scal[l, Ls - 1 - l : Ls + l]
    return flm


def analysis(flm, L, N, J_min, lam, spin=0, sampling="mw", multires=True, psi=None, phi=None, J_top=None):
    if psi is None:
        psi, phi = filters(L, N, J_min, lam, spin)
    wav, s = harm_analysis(flm, L, N, J_min, lam, psi, phi, spin, multires, J_top)
    f_wav = []
    for i, w in enumerate(wav):
        j = J_min + i
        f_wav.append(so3_field(w, wav_L(L, j, lam, multires), wav_N(L, N, j, lam, multires), sampling))
    Ls = scal_L(L, J_min, lam, multires)
    return f_wav, sph_field(s, Ls, spin, sampling)


# --------------------------------------------------------------------------- exact projections (no fast transform)
def _fourier(f, K, axis):
    """Coefficients of e^{i k x}, |k| < K, from n >= 2K-1 equispaced samples; and the residual."""
    n = f.shape[axis]
    x = 2 * math.pi * np.arange(n) / n
    k = np.arange(-K + 1, K)
    e = np.exp(-1j * np.outer(k, x)) / n
    c = np.moveaxis(np.tensordot(e, f, axes=(1, axis)), 0, axis)
    back = np.moveaxis(np.tensordot(np.exp(1j * np.outer(x, k)), c, axes=(1, axis)), 0, axis)
    return c, float(np.abs(back - f).max()) if f.size else 0.0


@lru_cache(maxsize=None)
def _lsq(L, m, n, sampling, lo):
    """Pseudo-inverse of the map l -> theta for fixed (m, n)."""
    th = thetas(L, sampling)
    a = np.stack([wigner_d(l, th)[:, l + m, l + n] for l in range(lo, L)], axis=1)
    return a, np.linalg.pinv(a)


def so3_project(f, L, N, sampling):
    """Wigner coefficients of a sampled function and the largest residual (0 if band-limited)."""
    c, r1 = _fourier(np.asarray(f, complex), N, 0)
    c, r2 = _fourier(c, L, 2)
    out = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    res = max(r1, r2)
    for n in range(-N + 1, N):
        for m in range(-L + 1, L):
            lo = max(abs(m), abs(n))
            v = c[N - 1 + n, :, L - 1 + m]
            if lo >= L:
                res = max(res, float(np.abs(v).max()))
                continue
            a, p = _lsq(L, m, n, sampling, lo)
            x = p @ v
            res = max(res, float(np.abs(a @ x - v).max()))
            l = np.arange(lo, L)
            out[N - 1 + n, lo:, L - 1 + m] = x * 8 * math.pi**2 / (2 * l + 1)
    return out, res


def sph_project(f, L, spin, sampling):
    c, res = _fourier(np.asarray(f, complex), L, 1)
    out = np.zeros((L, 2 * L - 1), complex)
    for m in range(-L + 1, L):
        lo = max(abs(m), abs(spin))
        v = c[:, L - 1 + m]
        if lo >= L:
            res = max(res, float(np.abs(v).max()))
            continue
        a, p = _lsq(L, m, -spin, sampling, lo)
        x = p @ v
        res = max(res, float(np.abs(a @ x - v).max()))
        l = np.arange(lo, L)
        out[lo:, L - 1 + m] = x * (-1) ** spin / np.sqrt((2 * l + 1) / (4 * math.pi))
    return out, res


def energy_sph(flm):
    return float(np.sum(np.abs(flm) ** 2))


def energy_so3(flmn):
    l = np.arange(flmn.shape[1])
    return float(np.sum(np.abs(flmn) ** 2 * ((2 * l + 1) / (8 * math.pi**2))[None, :, None]))


def rotate_flm(flm, L, alpha, beta, gamma):
    """(D(alpha,beta,gamma) f)_lm = sum_m' D^l_{m m'} f_lm', D = e^{-i m alpha} d^l_{mm'}(beta) e^{-i m' gamma}."""
    out = np.zeros_like(flm, dtype=complex)
    for l in range(flm.shape[0]):
        m = np.arange(-l, l + 1)
        d = wigner_d(l, [beta])[0]
        D = np.exp(-1j * m * alpha)[:, None] * d * np.exp(-1j * m * gamma)[None]
        out[l, L - 1 - l : L + l] = D @ flm[l, L - 1 - l : L + l]
    return out


# --------------------------------------------------------------------------- HEALPix
def healpix_angles(nside):
    """Pixel centres (ring order), from the published ring geometry."""
    th, ph = [], []
    for i in range(1, 4 * nside):
        if i < nside:
            z, n, s = 1 - i * i / (3.0 * nside**2), 4 * i, 0.5
        elif i <= 3 * nside:
            z, n, s = 4.0 / 3 - 2.0 * i / (3 * nside), 4 * nside, 0.5 if (i - nside) % 2 == 0 else 0.0
        else:
            k = 4 * nside - i
            z, n, s = -(1 - k * k / (3.0 * nside**2)), 4 * k, 0.5
        for q in range(n):
            th.append(math.acos(z))
            ph.append(2 * math.pi / n * (q + s))
    return np.array(th), np.array(ph)


def sYlm_at(l, m, spin, th, ph):
    return (-1) ** spin * math.sqrt((2 * l + 1) / (4 * math.pi)) * wigner_d(l, th)[:, l + m, l - spin] * np.exp(1j * m * ph)


def healpix_forward(f, L, spin, nside):
    th, ph = healpix_angles(nside)
    flm = np.zeros((L, 2 * L - 1), complex)
    for l, m in sph_modes(L, spin):
        flm[l, L - 1 + m] = 4 * math.pi / (12 * nside**2) * np.sum(f * np.conj(sYlm_at(l, m, spin, th, ph)))
    return flm


def healpix_sph(flm, L, spin, nside):
    th, ph = healpix_angles(nside)
    out = np.zeros(12 * nside**2, complex)
    for l, m in sph_modes(L, spin):
        out += flm[l, L - 1 + m] * sYlm_at(l, m, spin, th, ph)
    return out


def healpix_so3(flmn, L, N, nside):
    th, ph = healpix_angles(nside)
    out = np.zeros((2 * N - 1, 12 * nside**2), complex)
    for n in range(-N + 1, N):
        g = np.zeros(12 * nside**2, complex)
        for l in range(abs(n), L):
            for m in range(-l, l + 1):
                g += (2 * l + 1) / (8 * math.pi**2) * flmn[N - 1 + n, l, L - 1 + m] * wigner_d(l, th)[:, l + m, l + n] * np.exp(1j * m * ph)
        out += np.exp(1j * n * gammas(N))[:, None] * g[None]
    return out


def healpix_so3_forward(f, L, N, nside):
    """Wigner coefficients by the equal-weight HEALPix quadrature."""
    th, ph = healpix_angles(nside)
    out = np.zeros((2 * N - 1, L, 2 * L - 1), complex)
    for n in range(-N + 1, N):
        g = np.exp(-1j * n * gammas(N)) @ np.asarray(f, complex) * (2 * math.pi / (2 * N - 1))
        for l in range(abs(n), L):
            for m in range(-l, l + 1):
                out[N - 1 + n, l, L - 1 + m] = 4 * math.pi / (12 * nside**2) * np.sum(g * wigner_d(l, th)[:, l + m, l + n] * np.exp(-1j * m * ph))
    return out
