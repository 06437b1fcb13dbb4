"""C14: the reality option changes the cost, never the result."""
import lat
from checks import multi

PROPERTY = "C14"
RULE = ("one task per (implementation, configuration); for real signals and real coefficient maps the real code is run "
        "with the reality option on and off; results must agree, be real, and agree with the model")
ASSUMPTIONS = ["linearity over real signals: a generic real signal represents all", "tolerance 1e-9 relative"]
CHUNK = 10**6


def plan(tier):
    out = multi.plan(tier, lambda c, b: [b, list(c)], realities=(True,))
    for c in lat.lattice((3, 4), (1, 2, 3), (2.0, 1.5), (0,), multi.S, realities=(True,), multires=(False,), jmins=(0, 1)):
        for b in ("vec", "loop"):
            out.append(("eager", f"full-{c.sampling}", [b, list(c)]))
    return out


def run(ctx, t):
    import numpy as np

    from backends import to_np

    b, c, amp = multi.parse(t)
    B = ctx.B
    cn = c._replace(reality=False)
    flm = lat.generic_flm(c.L, 0, True, ctx.seed)
    f = lat.signal(c, flm)
    rw, rs = lat.model_analysis(c, flm)
    res = []
    # the option on, off, and off with a complex-typed (but real-valued) input
    for name, cc, x in (("on", c, f), ("off", cn, f), ("off, complex dtype", cn, f.astype(complex)), ("on, complex dtype", c, f.astype(complex))):
        if b == "c" and name == "on, complex dtype":
            continue  # the SSHT C route documents a real map when reality is on
        r = lat.guarded(ctx, b, "analysis", cc, lambda: B.analysis(b, cc, B.arr(b, amp * x)))
        ctx.state(name)
        if r is None:
            return
        ctx.check("number of scales", len(r[0]) == len(rw), f"{len(r[0])}")
        for i, (p, q) in enumerate(zip(r[0], rw)):
            ctx.close(f"wavelet map {i}, reality {name} ({b})", to_np(p) / amp, q.real)
        ctx.close(f"scaling map, reality {name} ({b})", to_np(r[1]) / amp, rs.real)
        res.append(r)
        ctx.trace()
    hw, hs = lat.generic_coeffs(c, ctx.seed)
    mw, ms = lat.coeff_maps(c, hw, hs)
    want = lat.signal(c, lat.model_synthesis_flm(c, hw, hs))
    for name, cc, typ in (("on", c, float), ("off", cn, float), ("off, complex dtype", cn, complex), ("on, complex dtype", c, complex)):
        g = lat.guarded(ctx, b, "synthesis", cc, lambda: B.synthesis(b, cc, [B.arr(b, amp * x.astype(typ)) for x in mw], B.arr(b, amp * ms.astype(typ))))
        if g is None:
            return
        ctx.close(f"synthesis, reality {name} ({b})", to_np(g) / amp, want)
        ctx.trace()
    # coefficients produced with one setting are synthesised with the other
    for name, cc, r in (("on->off", cn, res[0]), ("off->on", c, res[1])):
        g = lat.guarded(ctx, b, "synthesis", cc, lambda: B.synthesis(b, cc, r[0], r[1]))
        if g is None:
            return
        ctx.close(f"reconstruction {name} ({b})", to_np(g) / amp, f)
        ctx.trace()
