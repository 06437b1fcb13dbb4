"""C03: filters of spin signals and spin-lowered wavelets."""
import math

import ref
from checks.c02 import compare
from checks.filters_common import DIR, generate

PROPERTY = "C03"
RULE = ("one task per (generator, L, lam, J_min, N): all spins and spin0 of the plan; every entry of the filter bank "
        "is compared with the reference model, and against the same generator's spin-0 bank scaled by the documented factor")
ASSUMPTIONS = ["|spin|, |spin0| <= 25 and below L"]
CHUNK = 8


def plan(tier):
    out = []
    Ls = (2, 3, 4, 5, 7, 8, 9, 16, 33) if tier == "quick" else tuple(range(2, 34)) + (64, 65)
    for L in Ls:
        for lam in (2.0, 2, 3.0, 1.5, 5.0) if tier == "quick" else (2.0, 2, 3.0, 1.5, 5.0, 2.5, 4.0, math.pi):
            J = ref.j_max(L, lam)
            for J_min in range(J):
                if tier == "quick" and isinstance(lam, int) and L not in (4, 5):
                    continue
                if L > 8 and tier == "quick" and J_min not in (0, 1, J - 1):
                    continue
                if L > 9 and tier == "quick" and lam not in (2.0, 1.5):
                    continue
                for N in (1, 2, 3, 4, L):
                    if N > L or (N == L and N > 5):
                        continue
                    for gen in DIR:
                        if gen.endswith("torch") and tier == "quick" and (L not in (3, 5, 8) or N == 1):
                            continue
                        if gen == "dir_jax" and tier == "quick" and L > 5 and N != 2:
                            continue
                        if L > 16 and tier == "quick" and N not in (2, 3):
                            continue
                        if gen == "dir_jax" and tier == "quick" and (L > 8 or N > 3 or lam not in (2.0, 3.0)):
                            continue
                        out.append(("eager", f"{L}-{lam}", [gen, L, lam, J_min, N]))
    for gen, L, lam, J_min, N in (("dir_vec", 13, 2.0, 0, 2), ("dir_vec", 34, 2.0, 0, 3), ("dir_loop", 16, 2.0, 1, 2), ("dir_vec", 64, 2.0, 0, 2),
                                  ("dir_loop", 34, 3.0, 0, 2), ("dir_jax", 16, 2.0, 0, 2), ("dir_vec_torch", 16, 2.0, 0, 3), ("dir_loop_torch", 16, 2.0, 0, 3)):
        out.append(("eager", f"{L}-{lam}", [gen, L, lam, J_min, N, "large"]))
    for L in (3, 4, 5):
        out.append(("jit", "jit", ["dir_jax", L, 2.0, 0, 2]))
        out.append(("jit", "jit", ["dir_jax", L, 2.0, 1, 3]))
    return out


def run(ctx, t):
    import numpy as np

    gen, L, lam, J_min, N, *large = t
    spins = (0, 1, -1, 2, -2, 3, -3, 4, -5)
    if gen == "dir_jax" or L > 9:
        spins = (0, 1, -1, 2, -2, -3)
    pairs = [(s, s0) for s in spins for s0 in spins if not (abs(s) > 2 and abs(s0) > 2)]
    if large:  # spins whose factorial ratios overflow fixed-width integers
        pairs = [(8, 8), (-9, 10), (0, 12), (12, 0), (0, -10), (11, -11), (0, 14), (0, 20), (25, -1)]
    base = ctx.call(gen, generate, ctx.m, gen, L, N, J_min, lam)
    for s, s0 in pairs:
        if max(abs(s), abs(s0)) < L:
            psi, phi = ctx.call(gen, generate, ctx.m, gen, L, N, J_min, lam, s, s0)
            rpsi, rphi = ref.filters(L, N, J_min, lam, s, s0)
            sc = max(1.0, float(np.abs(rpsi).max()), float(np.abs(rphi).max()))
            ctx.n["states"] += rpsi.size + rphi.size
            compare(ctx, f"scaling filter ({gen}, spin={s}, spin0={s0})", phi / sc, rphi / sc)
            compare(ctx, f"wavelet filters ({gen}, spin={s}, spin0={s0})", psi / sc, rpsi / sc)
            lo = max(abs(s), abs(s0))
            ctx.check("no content below max(|spin|,|spin0|)", not np.any(psi[:, :lo]) and not np.any(phi[:lo]), f"spin={s}, spin0={s0}")
            ctx.check("finite", np.all(np.isfinite(psi)) and np.all(np.isfinite(phi)))
            f = np.array([(-1.0) ** s0 * ref.spin_norm(l, s0) if l >= lo else 0.0 for l in range(L)])
            ctx.close("scaled spin-0 bank", psi / sc, base[0] * f[None, :, None] / sc, 1e-9)
            ctx.close("scaled spin-0 scaling filter", phi / sc, base[1] * f / sc, 1e-9)
            ctx.trace()
