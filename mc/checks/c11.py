"""C11: implementations and optional arguments are interchangeable."""
import lat
from backends import ALL
from checks.multi import S

PROPERTY = "C11"
RULE = ("pairs tasks: one per configuration, all ordered pairs (analysis implementation, synthesis implementation); options "
        "tasks: one per (implementation, configuration), every alternative of every optional argument (filters from each "
        "generator or default, Wigner precomputes passed or default, int/float dilation, real/complex dtype, NumPy/JAX arrays, list/tuple "
        "coefficients, keyword/positional call); every result is compared with the reference model")
ASSUMPTIONS = ["linearity as in C04", "tolerance 1e-9 relative"]
CHUNK = 10**6
NOJAX = tuple(b for b in ALL if b != "jax")


def plan(tier):
    out, seen = [], set()
    for s in S:
        for real in (False, True):
            def add(kind, what, *a, tag="", mode="eager", **k):
                for c in lat.lattice(*a, samplings=(s,), realities=(real,), **k):
                    for w in what:
                        key = (mode, kind, str(w), type(c.lam).__name__) + tuple(c)
                        if key not in seen:
                            seen.add(key)
                            out.append((mode, f"{kind}{tag}{mode}-{s}-{int(real)}", [kind, w, list(c)]))

            add("pairs", [list(ALL)], (3,), (2, 3), (2.0,), (0, -1))
            add("pairs", [list(NOJAX)], (2,), (2,), (2.0,), (0, -1))
            add("pairs", [list(ALL)], (4,), (2,), (2.0,), (0,), jmins=(0, 1))
            add("pairs", [list(NOJAX)], (4,), (3,), (2.0,), (0,), jmins=(0, 1))
            add("pairs", [list(ALL)] if s in ("mw", "dh") else [list(NOJAX)], (5,), (2,), (3.0,), (1,), jmins=(1,))
            add("pairs", [list(NOJAX)], (3, 4, 5), (1, 2, 4), (1.5,), (0, 2), jmins=(0, -1), tag="n")
            add("pairs", [list(NOJAX)], (2, 4), (2,), (3,), (0, 1), jmins=(0,), tag="n")
            add("pairs", [list(NOJAX)], (6,), (3,), (2.0,), (0, -2), jmins=(-1,), tag="n")
            add("pairs", [["vec", "c", "pjax", "ptorch"]], (9,), (3,), (2.0,), (0,), jmins=(2,), tag="n")
            add("pairs", [list(NOJAX)], (8,), (6,), (2.0,), (0,), jmins=(0,), tag="n")
            add("options", NOJAX, (3,), (2, 3), (2.0,), (0, 1))
            add("options", ("jax",), (3,), (2,), (2.0,), (0, 1) if s in ("mw", "gl") else (0,), jmins=(0,))
            add("options", NOJAX, (2, 4), (1, 2, 3), (2.0,), (0, -2), jmins=(0, 1))
            add("options", NOJAX, (5,), (2,), (3.0,), (0, 1))
            add("options", ("c", "pjax"), (4,), (2,), (2.0,), (0,), jmins=(0,), mode="jit")
            if s == "mw":
                add("options", ("jax",), (3,), (2,), (2.0,), (0,), jmins=(0,), mode="jit")
            if tier == "thorough":
                add("pairs", [list(ALL)], (2, 3, 4, 5, 6, 8), (1, 2, 3, 4), (2.0, 3.0), (0, 1, -2), tag="t")
                add("pairs", [list(NOJAX)], (7, 9, 10, 16), (1, 2, 3, 5), (2.0, 3.0, 1.5), (0, -1, 2), tag="u")
                add("options", ALL, (2, 4, 5, 8), (1, 2, 3), (2.0, 3.0), (0, 1, -2), tag="t")
                add("options", ("jax", "c", "pjax"), (3, 4, 5, 8), (2, 3), (2.0, 3.0), (0,), tag="t", mode="jit")
    return out


def run(ctx, t):
    kind, w, c = t
    (pairs if kind == "pairs" else options)(ctx, w, lat.cfg(c))


def pairs(ctx, impls, c):
    from backends import to_np

    B = ctx.B
    f = lat.signal(c, lat.generic_flm(c.L, c.spin, c.reality, ctx.seed))
    hw, hs = lat.generic_coeffs(c, ctx.seed)
    mw, ms = lat.coeff_maps(c, hw, hs)
    co = {}
    for b in impls:
        r = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, B.arr(b, f)))
        if r is not None:
            co[b] = ([to_np(x) for x in r[0]], to_np(r[1]))
            ctx.state(("coefficients", b))
    first = next(iter(co))
    for b in co:
        ctx.check("number of scales", len(co[b][0]) == len(co[first][0]))
        for i, (p, q) in enumerate(zip(co[b][0] + [co[b][1]], co[first][0] + [co[first][1]])):
            ctx.close(f"analysis {b} against {first}, item {i}", p, q)
    for b2 in impls:
        for b1 in co:
            g = lat.guarded(ctx, b2, "synthesis", c, lambda: B.synthesis(b2, c, [B.arr(b2, x) for x in co[b1][0]], B.arr(b2, co[b1][1])))
            if g is None:
                break
            ctx.close(f"analysis {b1} -> synthesis {b2}", g, f)
            ctx.trace()


def strided(x):
    import numpy as np

    y = np.full(x.shape + (2,), np.nan, dtype=np.asarray(x).dtype)
    y[..., 0] = x
    y.setflags(write=False)
    return y[..., 0]


def readonly(x):
    import numpy as np

    y = np.array(x)
    y.setflags(write=False)
    return y


def options(ctx, b, c):
    import numpy as np

    B, m = ctx.B, ctx.m
    flm = lat.generic_flm(c.L, c.spin, c.reality, ctx.seed)
    f = lat.signal(c, flm)
    rw, rs = lat.model_analysis(c, flm)
    if c.reality:
        rw, rs = [x.real for x in rw], rs.real
    hw, hs = lat.generic_coeffs(c, ctx.seed)
    mw, ms = lat.coeff_maps(c, hw, hs)
    want = lat.signal(c, lat.model_synthesis_flm(c, hw, hs))
    mod = {"loop": m.base, "vec": m.base, "jax": m.wavelet, "c": m.wavelet_c, "pjax": m.pre, "ptorch": m.pret}[b]
    an = getattr(mod, "analysis_looped" if b == "loop" else "analysis")
    sy = getattr(mod, "synthesis_looped" if b == "loop" else "synthesis")
    fac = m.filters
    base = dict(L=c.L, N=c.N, J_min=c.J_min, lam=c.lam, spin=c.spin, sampling=c.sampling, reality=c.reality)
    dp = {True: {}, False: {}}  # forward -> default precomps
    if b in ("pjax", "ptorch"):
        dp = {fw: {"precomps": B.precomps(b, c, fw)} for fw in (True, False)}
    names = {"vec": "_base", "jax": "", "c": "_c", "pjax": "_precomp_jax", "ptorch": "_precomp_torch"}
    pub = (getattr(m.s2wav, "analysis" + names[b]), getattr(m.s2wav, "synthesis" + names[b])) if b in names else (an, sy)
    alts = []  # (name, kwargs of analysis, kwargs of synthesis, convert)
    nat = lambda x: B.arr(b, x)  # noqa: E731

    def alt(name, ka=None, ks=None, conv=nat, cont=list, args=None):
        a, s = dict(base), dict(base)
        a.update(dp[False])
        s.update(dp[True])
        a.update(ka or {})
        s.update(ks or ka or {})
        alts.append((name, a, s, conv, cont))

    alt("all defaults")
    if b not in ("loop", "vec"):
        tc = {"using_torch": True} if b == "ptorch" else {}
        gens = [("looped", fac.filters_directional), ("vectorised", fac.filters_directional_vectorised)]
        if b != "ptorch":
            gens.append(("jax", fac.filters_directional_jax))
        for n, g in gens:
            alt(f"{n} filters", {"filters": ctx.call(f"{n} filters", g, c.L, c.N, c.J_min, c.lam, c.spin, **tc)})
        fl = fac.filters_directional_vectorised(c.L, c.N, c.J_min, c.lam, c.spin, **tc)
        alt("filters as a list", {"filters": list(fl)})
    if b == "jax":
        alt("passed precomputes", *[{"precomps": m.construct.generate_wigner_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, None, fw, c.reality)} for fw in (False, True)])
    if b in ("pjax", "ptorch"):
        alt("regenerated kernels as a list", *[{"precomps": list(B.precomps(b, c, fw, fresh=True))} for fw in (False, True)])
    if float(c.lam).is_integer():
        alt("lam as int", {"lam": int(c.lam)})
        alt("lam as float", {"lam": float(c.lam)})
    if b != "ptorch":
        alt("NumPy arrays", conv=np.array)
    if b in ("jax", "c", "pjax") and ctx.mode == "eager":
        import jax.numpy as jnp

        alt("JAX arrays, tuple of coefficients", conv=jnp.array, cont=tuple)
    else:
        alt("tuple of coefficients", cont=tuple)
    if c.N == 2 and c.L in (3, 4) and c.J_min < 2 and ctx.mode == "eager":  # memory layouts and scalar types
        if b == "ptorch":
            import torch

            def tstrided(x):
                y = torch.zeros(x.shape + (2,), dtype=B.arr(b, x).dtype)
                y[..., 0] = B.arr(b, x)
                return y[..., 0]

            alt("non-contiguous tensors", conv=tstrided)
            alt("tensors that require grad", conv=lambda x: B.arr(b, x).requires_grad_())
        else:
            if b != "c":  # SSHT itself wants a contiguous last axis
                alt("Fortran-ordered arrays", conv=lambda x: np.array(x, order="F"))
            alt("strided read-only views" if b != "c" else "read-only arrays", conv=strided if b != "c" else readonly)
        alt("NumPy scalars as sizes", {k: np.int64(v) for k, v in dict(L=c.L, N=c.N, J_min=c.J_min).items()} | {"lam": np.float64(c.lam)})
    if not c.reality and c.spin == 0:
        alt("nside given but unused", {} if b == "c" else {"nside": None})
    for name, ka, ks, conv, cont in alts:
        if lat.known_class(b, "analysis", c):
            lat.guarded(ctx, b, "analysis", c, lambda: an(conv(f), **ka))
            continue
        ctx.state(name)
        an_, sy_ = pub if name == "all defaults" else (an, sy)
        r = ctx.call(f"analysis ({b}, {name})", an_, conv(f), **ka)
        ctx.check("number of scales", len(r[0]) == len(rw), f"{name}: {len(r[0])}")
        for i, (p, q) in enumerate(zip(r[0], rw)):
            ctx.close(f"wavelet scale {i} ({b}, {name})", p, q)
        ctx.close(f"scaling part ({b}, {name})", r[1], rs)
        g = lat.guarded(ctx, b, "synthesis", c, lambda: sy_(cont([conv(x) for x in mw]), conv(ms), **ks))
        if g is not None:
            ctx.close(f"synthesis ({b}, {name})", g, want)
        ctx.trace()
    # fully positional call
    if lat.known_class(b, "analysis", c) is None:
        r = ctx.call("positional analysis", B.analysis, b, c, nat(f))
        for i, (p, q) in enumerate(zip(r[0], rw)):
            ctx.close(f"wavelet scale {i} ({b}, positional)", p, q)
