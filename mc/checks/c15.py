"""C15: reverse-mode derivatives are the exact adjoints of the transforms."""
import lat
import ref
from checks import multi
from checks.multi import S

PROPERTY = "C15"
RULE = ("one task per (implementation, operation, configuration); analysis and harmonic-space analysis: every basis direction "
        "(each sample or coefficient, weights 1 and i) of the input against a generic cotangent in every output; synthesis: every "
        "basis cotangent of the output against a generic input; composed: the round trip, every input direction. "
        "The reference is the value of the function itself on the same directions (linear map)")
ASSUMPTIONS = ["SSHT C gradients are only claimed for complex signals on mw, mwss and gl (the real-signal adjoint is documented as conflicting in the test suite, the dh adjoint is approximate in s2fft)",
               "tolerance 1e-8 relative"]
CHUNK = 10**6
IMPL = ("jax", "c", "pjax", "ptorch")


def supported(b, c):
    return b != "c" or (not c.reality and c.sampling != "dh")


def plan(tier):
    out, seen = [], set()
    for s in S:
        for real in (False, True):
            def add(impls, ops, *a, tag="", mode="eager", **k):
                for c in lat.lattice(*a, samplings=(s,), realities=(real,), **k):
                    for b in impls:
                        for op in ops:
                            key = (mode, b, op) + tuple(c)
                            if key in seen or not supported(b, c):
                                continue
                            seen.add(key)
                            out.append((mode, f"{multi.FAMILY[b]}{tag}{mode}-{s}-{int(real)}", [b, op, list(c)]))

            ops = ("analysis", "synthesis", "flm")
            add(IMPL, ops, (3,), (1, 2), (2.0,), (0,), jmins=(0, 1))
            add(IMPL[1:], ops, (2,), (1, 2), (2.0,), (0,), jmins=(0,))
            add(IMPL, ops, (3,), (3,), (2.0,), (0,), jmins=(0,))
            add(IMPL, ("analysis", "synthesis"), (3,), (2,), (2.0,), (1,), jmins=(0,))
            add(IMPL[1:], ops + ("composed",), (2, 3), (2, 3), (2.0,), (0, -1), jmins=(0, 1))
            add(IMPL[1:], ops, (3,), (1, 2, 3), (1.5,), (0,), jmins=(0,))
            add(IMPL[1:], ops, (4,), (2, 3), (2.0,), (0, 2), jmins=(0,))
            add(("jax", "pjax", "c"), ("analysis", "synthesis"), (3,), (2,), (2.0,), (0,), jmins=(0,), mode="jit")
            add(("jax",), ("composed",), (3,), (2,), (2.0,), (0,), jmins=(0,))
            add(("pjax", "ptorch"), ("analysis", "synthesis"), (5,), (5,), (1.5,), (0,), jmins=(0,))
            add(("c", "ptorch"), ops, (5,), (2,), (2.0,), (0,), jmins=(1,))
            if tier == "thorough":
                add(IMPL, ops + ("composed",), (3, 4, 5), (1, 2, 3), (2.0, 3.0), (0, 1, -2), tag="t")
                add(IMPL[1:], ops, (6, 8), (2, 3), (2.0, 3.0, 1.5), (0, -1), tag="u")
                add(("jax", "pjax", "c"), ("analysis", "synthesis", "flm"), (4, 5), (2, 3), (2.0,), (0,), tag="v", mode="jit")
    return out


def _torch_pull(fn, x, outs_of):
    """Return (outputs, pull) where pull(cotangents) is the gradient of Re sum conj(u) y."""
    import torch

    from backends import to_np, to_torch

    xs = [to_torch(v).requires_grad_(True) for v in x]
    ys = outs_of(fn(*xs))

    def pull(us):
        pairs = [(y, torch.from_numpy(u).to(y.dtype)) for y, u in zip(ys, us) if y.requires_grad]
        g = torch.autograd.grad([y for y, _ in pairs], xs, [u for _, u in pairs], retain_graph=True, allow_unused=True)
        import numpy as np

        return [np.zeros(v.shape) if q is None else to_np(q) for q, v in zip(g, x)]

    return [to_np(y) for y in ys], pull, True


def _jax_pull(fn, x, outs_of):
    import jax
    import jax.numpy as jnp
    import numpy as np

    y, vjp = jax.vjp(lambda *a: outs_of(fn(*a)), *[jnp.array(v) for v in x])

    def pull(us):
        return [np.array(g) for g in vjp([jnp.array(u).astype(o.dtype) for u, o in zip(us, y)])]

    return [np.array(o) for o in y], pull, False


def run(ctx, t):
    import numpy as np

    from backends import to_np

    b, op, c = t
    c = lat.cfg(c)
    B = ctx.B
    if lat.known_class(b, "synthesis" if op in ("synthesis", "composed") else "analysis", c):
        lat.guarded(ctx, b, "synthesis", c, lambda: _known(B, b, op, c, ctx.seed))
        return
    r = lat.rng_for(ctx.seed, "c15", tuple(c), op)
    Pull = _torch_pull if b == "ptorch" else _jax_pull
    J = ref.j_max(c.L, c.lam)
    outs = lambda y: list(y[0]) + [y[1]]  # noqa: E731
    flat = lambda y: list(y)  # noqa: E731
    one = lambda y: [y]  # noqa: E731
    shape = (ref.ntheta(c.L, c.sampling), ref.nphi(c.L, c.sampling))

    def rnd(sh, real):
        return r.normal(size=sh) + (0.0 if real else 1j * r.normal(size=sh))

    def inner(u, v, conj):
        return float(np.real(np.sum((np.conj(u) if conj else u) * v)))

    native = (lambda z: B.arr(b, z))

    if op in ("analysis", "composed", "flm"):
        if op == "flm":
            shape = (c.L, 2 * c.L - 1)
            real = False
            fn, of = (lambda z: B.flm_to_analysis(b, c, z)), flat
        else:
            real = c.reality
            if op == "analysis":
                fn, of = (lambda z: B.analysis(b, c, z)), outs
            else:
                fn, of = (lambda z: B.synthesis(b, c, *B.analysis(b, c, z))), one
        x = rnd(shape, real)
        if op == "flm":
            x = lat.generic_flm(c.L, 0, c.reality, ctx.seed)
        y, pull, conj = ctx.call(f"vjp of {op} ({b})", Pull, fn, [x], of)
        us = [rnd(o.shape, not np.iscomplexobj(o)) for o in y]
        g = ctx.call(f"pullback of {op} ({b})", pull, us)[0]
        ctx.check(f"gradient shape of {op} ({b})", g.shape == shape, g.shape)
        zero = [0 * o for o in y]
        for k in np.ndindex(shape):
            if op == "flm" and not (abs(k[1] - c.L + 1) <= k[0]):
                continue
            if op == "flm" and c.reality and k[1] < c.L - 1:
                continue
            for e in (1.0, 1j):
                if e == 1j and (real or (op == "flm" and c.reality and k[1] == c.L - 1)):
                    continue
                d = np.zeros(shape, float if real else complex)
                d[k] = e
                if op == "flm" and c.reality:  # harmonic coefficients of real signals: move along the symmetric direction
                    d = lat.realify(d, c.L)
                ctx.state((k, e.imag if isinstance(e, complex) else 0))
                o = [to_np(q) for q in of(ctx.call(f"{op} ({b})", fn, native(d)))]
                lhs = sum(inner(u, v, conj) for u, v in zip(us, o))
                rhs = inner(g, d, conj)
                ctx.n["comparisons"] += 1
                sc = max(1.0, np.abs(g).max())
                ctx.check(f"gradient of {op} ({b})", abs(lhs - rhs) <= 1e-8 * sc, f"direction {k} x {e}: function changes by {lhs}, gradient says {rhs}")
                ctx.worst = max(ctx.worst, abs(lhs - rhs) / sc)
        # one output at a time
        for i in range(len(us)):
            gi = ctx.call(f"pullback of {op} ({b})", pull, zero[:i] + [us[i]] + zero[i + 1 :])[0]
            lhs, rhs = inner(us[i], y[i], conj), inner(gi, x, conj)
            ctx.check(f"gradient of {op} output {i} ({b})", abs(lhs - rhs) <= 1e-8 * max(1.0, np.abs(gi).max() * np.sqrt(gi.size)), f"{lhs} vs {rhs}")
        ctx.trace()
        return
    # synthesis: every output direction
    xs = [rnd((2 * ref.wav_N(c.L, c.N, j, c.lam) - 1, ref.ntheta(ref.wav_L(c.L, j, c.lam), c.sampling), ref.nphi(ref.wav_L(c.L, j, c.lam), c.sampling)), c.reality)
          for j in range(c.J_min, J + 1)]
    Ls = ref.scal_L(c.L, c.J_min, c.lam)
    xs.append(rnd((ref.ntheta(Ls, c.sampling), ref.nphi(Ls, c.sampling)), c.reality))
    fn = lambda *a: B.synthesis(b, c, list(a[:-1]), a[-1])  # noqa: E731
    y, pull, conj = ctx.call(f"vjp of synthesis ({b})", Pull, fn, xs, one)
    y = y[0]
    # contribution of every input block separately
    parts = []
    for i in range(len(xs)):
        z = [0 * v for v in xs]
        z[i] = xs[i]
        parts.append(to_np(ctx.call(f"synthesis ({b})", fn, *[native(v) for v in z])))
    for k in np.ndindex(y.shape):
        for e in (1.0, 1j):
            if e == 1j and not np.iscomplexobj(y):
                continue
            u = np.zeros(y.shape, y.dtype)
            u[k] = e
            g = ctx.call(f"pullback of synthesis ({b})", pull, [u])
            ctx.state((k, e.imag if isinstance(e, complex) else 0))
            for i in range(len(xs)):
                lhs, rhs = inner(u, parts[i], conj), inner(g[i], xs[i], conj)
                sc = max(1.0, np.abs(y).max())
                ctx.check(f"gradient of synthesis ({b}), input {i}", abs(lhs - rhs) <= 1e-8 * sc, f"output {k} x {e}: function gives {lhs}, gradient says {rhs}")
                ctx.worst = max(ctx.worst, abs(lhs - rhs) / sc)
    ctx.trace()


def _known(B, b, op, c, seed):
    hw, hs = lat.generic_coeffs(c, seed)
    mw, ms = lat.coeff_maps(c, hw, hs)
    return B.synthesis(b, c, [B.arr(b, x) for x in mw], B.arr(b, ms))
