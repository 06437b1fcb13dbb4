"""C09: analysis followed by synthesis reproduces every band-limited signal exactly."""
import lat
from checks import multi

PROPERTY = "C09"
RULE = ("one task per (implementation, configuration); the history signal -> analysis -> synthesis -> analysis -> "
        "synthesis is executed on the real code; every intermediate signal must equal the original and both "
        "coefficient sets must agree; NumPy implementations also at full resolution")
ASSUMPTIONS = ["linearity: a signal with every harmonic coefficient present represents all band-limited signals",
               "tolerance 1e-9 relative"]
CHUNK = 10**6


def plan(tier):
    out = multi.plan(tier, lambda c, b: [b, list(c)])
    for c in lat.lattice((2, 3, 4, 5), (1, 2, 3), (2.0,), (0, -1), multi.S, multires=(False,)):
        for b in ("vec", "loop"):
            out.append(("eager", f"full-{c.sampling}", [b, list(c)]))
    jit = [(b, s, r) for b in ("jax", "pjax", "c") for s in multi.S for r in (False, True)]
    for b, s, r in jit:
        for c in lat.lattice((4,), (2, 3) if tier == "thorough" else (2,), (2.0,), (0,) if r else (1,), (s,), (r,), jmins=(0,)):
            out.append(("jit", f"jit-{s}-{int(r)}", [b, list(c)]))
    return out


def run(ctx, t):
    from backends import to_np

    b, c, amp = multi.parse(t)
    B = ctx.B
    f = lat.signal(c, lat.generic_flm(c.L, c.spin, c.reality, ctx.seed))
    x, first = B.arr(b, amp * f), None
    for k in (1, 2):
        ctx.state(("signal", k))
        r = lat.guarded(ctx, b, "analysis", c, lambda: B.analysis(b, c, x))
        if r is None:
            return
        w, s = r
        cur = [to_np(y) / amp for y in w] + [to_np(s) / amp]
        ctx.state(("coefficients", k))
        if first is not None:
            for i, (p, q) in enumerate(zip(cur, first)):
                ctx.close(f"coefficients of the reconstructed signal ({b}, item {i})", p, q)
        first = cur
        g = lat.guarded(ctx, b, "synthesis", c, lambda: B.synthesis(b, c, w, s))
        if g is None:
            return
        ctx.close(f"reconstruction, pass {k} ({b})", to_np(g) / amp, f)
        x = g
        ctx.trace()
