"""C16: results depend only on the arguments, never on the call history."""
import env
import ops

PROPERTY = "C16"
RULE = ("fresh tasks: one per (family, first operation a); for every operation b the histories a,b,a (objects reused) and a,b (every "
        "result and argument overwritten after use) are executed from a freshly imported package; tour tasks: one long history per family "
        "that contains every ordered pair of operations; jit tasks: the same tours with compilation active. Every result is compared with the model "
        "(or, for constructors and kernels, with a call in a fresh import) and every argument with its snapshot")
ASSUMPTIONS = ["operation alphabet of mc/ops.py: entry points x configurations that differ in one argument", "s2fft's own caches are part of the environment"]
CHUNK = 1
_expected = {}


def plan(tier):
    out = []
    for fam, al in ops.families().items():
        for i in range(len(al)):
            out.append(("eager", f"{fam}", ["fresh", fam, i]))
        out.append(("eager", f"{fam}", ["tour", fam, None]))
        if tier == "thorough":
            for i in range(min(len(al), 16)):
                out.append(("eager", f"{fam}", ["fresh3", fam, i]))
    for fam, al in jit_families(tier).items():
        out.insert(0, ("jit", f"jit-{fam}", ["jit", fam, None]))
    return out


def jit_families(tier):
    j = {
        "filters": [["filt:jax", v] for v in ("sA", "nN3", "sJ1", "L3", "A", "J1", "spin1", "lam3")] + [["axi:jax", "A"], ["axi:jax", "J1"], ["k_lam_jax", "A"], ["k_lam_jax", "lam3"], ["direction_jax", "A"], ["direction_jax", "N3"],
                    ["c_flmn_jax", "A"], ["c_flmn_jax", "N3"], ["c_flmn_jax", "full"], ["c_flm_jax", "A"], ["c_f_jax", "A"]],
        "pjax": [[f, v] for f in ("an:pjax", "sy:pjax") for v in ("sA", "nN3", "sJ1", "sreal")] + [["flm:pjax", "sA"], ["an0:pjax", "sA"], ["filt:jax", "sA"]],
        "c": [[f, v] for f in ("an:c", "sy:c") for v in ("sA", "nN3", "sJ1", "sreal")] + [["flm:c", "sA"], ["flm:c", "sJ1"], ["an0:c", "sA"]],
        "jax": [["an:jax", "sA"], ["an:jax", "sreal"], ["sy:jax", "sA"], ["pre:wigner", "sA"], ["an0:jax", "sA"]],
    }
    if tier == "thorough":
        j["jax"] += [["an:jax", "nN3"], ["an:jax", "sJ1"], ["sy:jax", "sreal"], ["flm:jax", "sA"], ["sy:jax", "sJ1"]]
        j["pjax"] += [["an:pjax", v] for v in ("A", "dh", "lam3", "spin1")]
    return j


def expected(ctx, op, want):
    """Model answer, or the answer of a single call in a fresh import."""
    k = (ctx.mode, tuple(op))
    if k not in _expected:
        if want is None:
            M = ops.Machine(env.load(ctx.mode, fresh=True), ctx.seed)
            th, _, _ = M.prepare(op)
            want = [ops.to_np(x) for x in ops.leaves(ctx.call(str(op), th))]
        _expected[k] = want
    return _expected[k]


def step(ctx, M, op, hist, poison):
    th, I, want = M.prepare(op)
    I.snapshot()
    out = ctx.call(f"{op} after {hist}", th)
    lv = ops.leaves(out)
    exp = expected(ctx, op, want)
    ctx.check(f"{op}: structure of the result after {hist}", len(lv) == len(exp), f"{len(lv)} arrays, expected {len(exp)}")
    filt = op[0].startswith(("filt", "axi"))
    for i, (x, y) in enumerate(zip(lv, exp)):
        ctx.close(f"{op} item {i} after history {hist}", x, y, 1e-7 if filt else 1e-9)
    n = I.changed()
    ctx.check(f"{op} modified its argument", n is None, n)
    if poison:
        ops.scribble(out)
        I.poison()
        M.B._filt.clear()
        M.B._pre.clear()


def run(ctx, t):
    kind, fam, i = t
    if kind == "fresh":
        al = ops.families()[fam]
        a = al[i]
        M0 = ops.Machine(env.load(ctx.mode, fresh=True), ctx.seed)
        th, _, want = M0.prepare(a)
        expected(ctx, a, want)
        for b in al:
            _, _, want = M0.prepare(b)
            expected(ctx, b, want)
        for b in al:
            for poison, seq in ((False, (a, b, a)), (True, (a, b))):
                M = ops.Machine(env.load(ctx.mode, fresh=True), ctx.seed)
                hist = []
                for op in seq:
                    step(ctx, M, op, hist, poison)
                    hist.append(op)
                    ctx.state((poison, tuple(map(tuple, hist))))
                ctx.trace()
        return
    if kind == "fresh3":  # all histories of three operations over the head of the alphabet
        al = ops.families()[fam][:16]
        a = al[i]
        M0 = ops.Machine(env.load(ctx.mode, fresh=True), ctx.seed)
        for b in al:
            expected(ctx, b, M0.prepare(b)[2])
        for b in al:
            for c in al:
                M = ops.Machine(env.load(ctx.mode, fresh=True), ctx.seed)
                hist = []
                for op in (a, b, c):
                    step(ctx, M, op, hist, True)
                    hist.append(op)
                ctx.state((tuple(b), tuple(c)))
                ctx.trace()
        return
    al = jit_families(ctx_tier())[fam] if kind == "jit" else reduced(ops.families()[fam])
    if kind == "jit":
        m = ctx.m
    else:
        m = env.load(ctx.mode, fresh=True)
    for op in al:
        M = ops.Machine(env.load(ctx.mode, fresh=True) if kind != "jit" else m, ctx.seed)
        _, _, want = M.prepare(op)
        if kind != "jit":
            expected(ctx, op, want)
    for poison in (False, True):
        M = ops.Machine(m, ctx.seed)
        hist = []
        for k in ops.tour(len(al)):
            step(ctx, M, al[k], hist[-3:], poison)
            hist.append(al[k])
            ctx.state((poison, len(hist)))
        ctx.trace()


def ctx_tier():
    import os

    return os.environ.get("VERIF_TIER", "quick")


def reduced(al):
    return al if len(al) <= 34 else al[:34]
