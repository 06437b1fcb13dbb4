"""C01: the wavelet and scaling filters resolve the identity at every multipole."""
import math

import lat
import ref
from checks.filters_common import AXI, DIR, generate

PROPERTY = "C01"
RULE = ("one task per (generator, L, lam, J_min, all N and spins of the plan); states are the multipoles of the "
        "filter bank, the invariant |phi_l|^2 + sum_j,n |psi_ln^j|^2 = 1 (with the documented normalisations) is "
        "evaluated at every multipole; generators are the real code")
ASSUMPTIONS = ["dilation parameters and band-limits within the plan's bounds", "double precision (tolerance 1e-11)"]
CHUNK = 6


def plan(tier):
    Ls = list(range(2, 10)) + [12, 16, 17, 27, 32, 33, 64]
    lams = [2.0, 2, 3.0, 3, 1.5, math.sqrt(2), 2.5, math.pi, 4.0, 5.0, 10.0]
    if tier == "thorough":
        Ls = list(range(2, 70)) + [81, 100, 125, 128, 129, 243, 256]
        lams += [1.2, 1.3, 1.7, 1.9, math.e, 6.0, 7.0, 8.5, 20.0]
    out = []
    for L in Ls:
        for lam in lams:
            if L > 20 and tier == "quick" and isinstance(lam, int):
                continue
            for J_min in range(ref.j_max(L, lam)):
                if L > 20 and tier == "quick" and J_min not in (0, 1, 2, ref.j_max(L, lam) - 1):
                    continue
                for gen in AXI + DIR:
                    if tier == "quick" and gen.endswith("torch") and L not in (2, 3, 4, 5, 8, 16, 33):
                        continue
                    if tier == "quick" and gen == "dir_jax" and L > 6 and (lam not in (2.0, 3.0, 1.5) or J_min > 2 or (L > 12 and lam != 2.0)):
                        continue
                    if gen.endswith("jax") and (L > 33 or (L > 9 and (J_min not in (0, 2) or L in (12, 15, 27, 32)))) and tier == "quick":
                        continue
                    out.append(("eager", f"{L}", [gen, L, lam, J_min]))
    # large band-limits, and every number of orientations at small ones
    for gen in ("axi_loop", "axi_vec", "axi_jax", "dir_vec", "dir_loop", "dir_jax"):
        for L, lam in ((101, 2.0), (128, 2.0), (200, 3.0), (256, 2.0), (300, 2.0), (512, 2.0), (1024, 2.0)):
            if L > {"axi_loop": 1024, "axi_vec": 1024, "axi_jax": 512, "dir_vec": 300, "dir_loop": 200, "dir_jax": 0}[gen]:
                continue
            out.append(("eager", f"big{L}", [gen, L, lam, 0]))
            if gen.startswith("axi"):
                out.append(("eager", f"big{L}", [gen, L, lam, min(5, ref.j_max(L, lam) - 1)]))
    out.append(("eager", "bigjax", ["dir_jax", 48, 2.0, 0]))
    for L in (6, 7, 8, 11, 12, 14, 16, 17, 20, 25):
        out.append(("eager", f"alln{L}", ["dir_vec", L, 2.0, 0, "all"]))
        if L < 13:
            out.append(("eager", f"alln{L}", ["dir_loop", L, 2.0, 0, "all"]))
    for L in (2, 3, 4, 5, 8):
        for lam in (2.0, 3.0):
            for J_min in range(ref.j_max(L, lam)):
                for gen in ("axi_jax", "dir_jax"):
                    out.append(("jit", f"jit{L}", [gen, L, lam, J_min]))
    return out


def run(ctx, t):
    import numpy as np

    gen, L, lam, J_min, *every = t
    ell = np.arange(L)
    if gen in AXI:
        k, k0 = ctx.call(gen, generate, ctx.m, gen, L, 1, J_min, lam)
        J = ref.j_max(L, lam)
        ctx.check("shapes", k.shape == (J + 1, L) and k0.shape == (L,), f"{k.shape} {k0.shape}")
        tot = np.abs(k0) ** 2 + np.sum(np.abs(k[J_min:]) ** 2, axis=0)
        ctx.n["states"] += L
        ctx.close(f"resolution of the identity ({gen})", tot, np.ones(L), 1e-11)
        ctx.trace()
        return
    Ns = [1, 2, 3, 4, 5, 6, 9, 16] if L > 5 else [1, 2, 3, 4, 5]
    if L > 20:
        Ns = [2, 5, 32]
    if L > 100:
        Ns = [2, 5]
    if every:
        Ns = range(1, L + 1)
    if ctx.mode == "jit" or gen == "dir_jax":
        Ns = [1, 2, 3, L] if L < 9 else [2, 5]
    for N in sorted(set(n for n in Ns if n <= L)):
        for spin in (0, 1, -2, 3) if N <= 3 and L < 20 else (0, 2):
            if abs(spin) >= L:
                continue
            psi, phi = ctx.call(gen, generate, ctx.m, gen, L, N, J_min, lam, spin)
            tot = 4 * np.pi / (2 * ell + 1) * np.abs(phi) ** 2
            tot = tot + 8 * np.pi**2 / (2 * ell + 1) * np.sum(np.abs(psi[J_min:]) ** 2, axis=(0, 2))
            want = np.where(ell >= abs(spin), 1.0, 0.0)
            ctx.n["states"] += L
            ctx.close(f"resolution of the identity ({gen}, N={N}, spin={spin})", tot, want, 1e-11)
            ctx.trace()
