"""C12: analysis started from harmonic coefficients equals analysis restricted to the requested scales."""
import lat
import ref
from checks import multi
from checks.multi import S

PROPERTY = "C12"
RULE = ("one task per (implementation, configuration); for every truncation J_min <= J_max <= J (and the default) and "
        "every kernel layout the real call is compared with the reference model, and at the default truncation with the "
        "real analysis of the corresponding signal")
ASSUMPTIONS = ["linearity as in C04", "tolerance 1e-9 relative"]
CHUNK = 10**6
IMPL = ("jax", "c", "pjax", "ptorch")


def plan(tier):
    out, seen = [], set()
    for s in S:
        for real in (False, True):
            def add(mode, impls, *a, tag="", amp=0, **k):
                for c in lat.lattice(*a, samplings=(s,), realities=(real,), **k):
                    for b in impls:
                        key = (mode, b, amp, type(c.lam).__name__) + tuple(c)
                        if key not in seen:
                            seen.add(key)
                            out.append((mode, f"{multi.FAMILY[b]}{tag}-{s}-{int(real)}", [b, list(c)] + ([amp] if amp else [])))

            add("eager", IMPL, (3, 4), (1, 2, 3), (2.0,), (0,))
            add("eager", IMPL[1:], (2,), (1, 2), (2.0,), (0,))
            for amp in (-100, 100):  # inputs scaled by 2^amp
                add("eager", IMPL, (3,), (2,), (2.0,), (0,), amp=amp)
            add("eager", IMPL, (4, 5), (2,), (2.0, 3.0), (0, 1))
            add("eager", IMPL[1:], (2, 3, 4), (2, 3, "L"), (1.5, 3), (0, -2))
            add("eager", IMPL[1:], (5, 9), (2, 3, 5), (2.0, 3.0), (0, -1))
            add("eager", IMPL[1:], (8,), (6, 7), (2.0,), (0,), jmins=(0,))
            if s in ("mw", "dh"):
                add("eager", ("jax",), (6,), (6,), (2.0,), (0,), jmins=(0,))
                add("eager", ("jax",), (9,), (3,), (2.0,), (0,), jmins=(0,))
            add("eager", ("c", "ptorch"), (17,), (2, 3), (2.0,), (0,), jmins=(0, 3))
            add("jit", IMPL[1:3], (4,), (2,), (2.0,), (0,), jmins=(0,))
            add("jit", ("jax",), (4,), (2,), (2.0,), (0,), jmins=(1,))
            if tier == "thorough":
                add("eager", IMPL, (5, 6, 7, 8), (1, 2, 3, 4), (2.0, 3.0), (0, 1, -2), tag="t")
                add("eager", IMPL[1:], (7, 8, 10, 16, 17, 33), (1, 2, 3, 5), (2.0, 3.0, 1.5, 2.5), (0, -2, 1), tag="u")
                add("jit", IMPL[:3], (3, 4, 5, 8), (2, 3), (2.0, 3.0), (0,), tag="v")
    return out


def run(ctx, t):
    from backends import to_np

    b, c, amp = multi.parse(t)
    B, m = ctx.B, ctx.m
    J = ref.j_max(c.L, c.lam)
    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)
    rw, _ = lat.model_analysis(c, flm)
    x = B.arr(b, amp * flm)
    variants = [("default kernels", None, {})]
    if b == "jax":
        pre = m.construct.generate_wigner_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality)
        variants.append(("passed precomputes", pre, {}))
    if b in ("pjax", "ptorch"):
        nos = m.construct.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality, True, b == "ptorch")
        variants.append(("kernels without spherical", nos, {}))
    if b == "pjax":
        own = (nos[0], nos[1], list(nos[2]) + [nos[2][-1]])
        variants.append(("one kernel per scale", own, {"_precomp_shift": False}))
    for vn, pre, kw in variants:
        if ctx.mode == "jit" and vn != "default kernels" and b == "jax":
            continue
        for J_max in [None] + list(range(c.J_min, J + 1)):
            if ctx.mode == "jit" and J_max not in (None, J - 1):
                continue
            ctx.state((vn, J_max))
            top = J if J_max is None else J_max
            r = lat.guarded(ctx, b, "flm_to_analysis", c, lambda: B.flm_to_analysis(b, c, x, J_max, precomps=pre, **kw))
            if r is None:
                continue
            ctx.check(f"number of scales ({b}, J_max={J_max}, {vn})", len(r) == top - c.J_min + 1, len(r))
            for i, (p, q) in enumerate(zip(r, rw)):
                ctx.close(f"scale {c.J_min + i}, J_max={J_max}, {vn} ({b})", to_np(p) / amp, q.real if c.reality else q)
            ctx.trace()
    if c.spin == 0:  # filters left to default
        d = {"jax": m.wavelet, "c": m.wavelet_c, "pjax": m.pre, "ptorch": m.pret}[b].flm_to_analysis
        kw = {"precomps": B.precomps(b, c, False)} if b[0] == "p" else {}
        r = lat.guarded(ctx, b, "flm_to_analysis", c, lambda: d(x, c.L, c.N, c.J_min, lam=c.lam, sampling=c.sampling, reality=c.reality, **kw))
        if r is not None:
            for i, (p, q) in enumerate(zip(r, rw)):
                ctx.close(f"scale {c.J_min + i}, default filters ({b})", to_np(p) / amp, q.real if c.reality else q)
            ctx.trace()
    f = lat.signal(c, flm)
    a = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, amp * f)))
    r = lat.guarded(ctx, b, "flm_to_analysis", c, lambda: B.flm_to_analysis(b, c, x))
    if a is not None and r is not None:
        for i, (p, q) in enumerate(zip(r, a[0])):
            ctx.close(f"against analysis of the signal, scale {c.J_min + i} ({b})", to_np(p) / amp, to_np(q) / amp)
        ctx.trace()
