"""C02: filter values, compact support, smoothness window and symmetry match the definition."""
import math

import lat
import ref
from checks.filters_common import AXI, DIR, generate

PROPERTY = "C02"
RULE = ("one task per (generator, L, lam, J_min); states are the (scale, multipole, order) entries of the filter "
        "bank; each entry of the real code's arrays is compared with the reference model and the support and "
        "symmetry invariants are evaluated on it")
ASSUMPTIONS = ["reference generating function: 300-panel trapezium rule, as documented",
               "square roots of cancelling differences are compared at 3e-7, their squares at 1e-12"]
CHUNK = 6


def plan(tier):
    Ls = list(range(2, 10)) + [12, 15, 16, 17, 27, 32, 33, 64, 81]
    lams = [2.0, 2, 3.0, 3, 1.5, math.sqrt(2), 2.5, math.pi, 4.0, 5.0, 10.0]
    if tier == "thorough":
        Ls = list(range(2, 70)) + [81, 100, 125, 128, 129, 243, 256]
        lams += [1.2, 1.3, 1.7, 1.9, math.e, 6.0, 7.0, 8.5, 20.0]
    out = []
    for L in Ls:
        for lam in lams:
            if L > 20 and tier == "quick" and isinstance(lam, int):
                continue
            J = ref.j_max(L, lam)
            for J_min in range(J):
                if L > 20 and tier == "quick" and J_min not in (0, 1, 2, J - 1):
                    continue
                for gen in AXI + DIR:
                    if tier == "quick" and gen.endswith("torch") and L not in (2, 3, 4, 5, 8, 16, 33):
                        continue
                    if gen.endswith("jax") and (L > 33 or (L > 9 and (J_min not in (0, 2) or L in (12, 15, 27, 32)))) and tier == "quick":
                        continue
                    out.append(("eager", f"{L}", [gen, L, lam, J_min]))
    # large band-limits, and every number of orientations at small ones
    for gen in ("axi_loop", "axi_vec", "axi_jax", "dir_vec", "dir_loop", "dir_jax"):
        for L, lam in ((101, 2.0), (128, 2.0), (200, 3.0), (256, 2.0), (300, 2.0), (512, 2.0), (1024, 2.0)):
            if L > {"axi_loop": 1024, "axi_vec": 1024, "axi_jax": 512, "dir_vec": 300, "dir_loop": 200, "dir_jax": 0}[gen]:
                continue
            out.append(("eager", f"big{L}", [gen, L, lam, 0]))
            if gen.startswith("axi"):
                out.append(("eager", f"big{L}", [gen, L, lam, min(5, ref.j_max(L, lam) - 1)]))
    out.append(("eager", "bigjax", ["dir_jax", 48, 2.0, 0]))
    for L in (6, 7, 8, 11, 12, 14, 16, 17, 20, 25):
        out.append(("eager", f"alln{L}", ["dir_vec", L, 2.0, 0, "all"]))
        if L < 13:
            out.append(("eager", f"alln{L}", ["dir_loop", L, 2.0, 0, "all"]))
    for L in (2, 3, 4, 5, 8):
        for lam in (2.0, 3.0):
            for J_min in range(ref.j_max(L, lam)):
                for gen in ("axi_jax", "dir_jax"):
                    out.append(("jit", f"jit{L}", [gen, L, lam, J_min]))
    return out


def compare(ctx, what, got, want):
    import numpy as np

    ctx.close(what, got, want, 3e-7)
    ctx.close(what + " (squared modulus)", np.abs(got) ** 2, np.abs(want) ** 2, 1e-12)


def run(ctx, t):
    import numpy as np

    gen, L, lam, J_min, *every = t
    J = ref.j_max(L, lam)
    ell = np.arange(L)
    if gen in AXI:
        k, k0 = ctx.call(gen, generate, ctx.m, gen, L, 1, J_min, lam)
        rk, rk0 = ref.kappa(L, J_min, lam)
        ctx.n["states"] += rk.size + rk0.size
        compare(ctx, f"scaling generating function ({gen})", k0, rk0)
        compare(ctx, f"wavelet generating functions ({gen})", k, rk)
        ctx.check("real, non-negative", np.isrealobj(k) and np.isrealobj(k0) and k.min() >= 0 and k0.min() >= 0)
        support(ctx, k[:, :, None], k0, L, lam, J, J_min)
        ctx.trace()
        return
    Ns = [1, 2, 3, 4, 5, 6, 9, 16] if L > 5 else [1, 2, 3, 4, 5]
    if L > 20:
        Ns = [2, 5, 32]
    if L > 100:
        Ns = [2, 5]
    if every:
        Ns = range(1, L + 1)
    if ctx.mode == "jit" or gen == "dir_jax":
        Ns = [1, 2, 3, L] if L < 9 else [2, 5]
    for N in sorted(set(n for n in Ns if n <= L)):
        psi, phi = ctx.call(gen, generate, ctx.m, gen, L, N, J_min, lam)
        rpsi, rphi = ref.filters(L, N, J_min, lam)
        ctx.n["states"] += rpsi.size + rphi.size
        compare(ctx, f"scaling filter ({gen}, N={N})", phi, rphi)
        compare(ctx, f"wavelet filters ({gen}, N={N})", psi, rpsi)
        support(ctx, np.abs(psi), np.abs(phi), L, lam, J, J_min)
        m = np.arange(-L + 1, L)
        dead = (np.abs(m) >= N) | ((m + N) % 2 == 0)
        ctx.check("azimuthal band-limit and parity", not np.any(psi[:, :, dead]), f"N={N}")
        for l in range(L):
            ctx.check("|m| <= l", not np.any(psi[:, l, np.abs(m) > l]), f"l={l}")
        ctx.close("steering symmetry psi_(l,-m) = (-1)^m conj(psi_(l,m))", psi[:, :, ::-1], (-1.0) ** m * np.conj(psi), 1e-9)
        ctx.trace()


def support(ctx, psi, phi, L, lam, J, J_min):
    """psi^j lives on lam^(j-1) < l < lam^(j+1); phi on l < lam^J_min; nothing below J_min."""
    import numpy as np

    ell = np.arange(L)
    for j in range(J + 1):
        out = (ell < lam ** (j - 1) * (1 - 1e-12)) | (ell > lam ** (j + 1) * (1 + 1e-12)) if j >= J_min else ell >= 0
        ctx.check("compact support of the wavelets", np.all(np.abs(psi[j][out]) < 3e-7), f"scale {j}, J_min {J_min}")
    ctx.check("compact support of the scaling function", np.all(np.abs(phi[ell > lam**J_min * (1 + 1e-12)]) < 3e-7), f"J_min {J_min}")
