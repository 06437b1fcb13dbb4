"""C17: concurrent calls from two threads return what they return alone, for every interleaving."""
import os

import env
import ops
import sched

PROPERTY = "C17"
RULE = ("one task per ordered pair of operations (and preemption bound); every execution starts from a freshly imported package; "
        "bound 1: thread 1 runs to completion at every scheduling point of thread 0 (first, second and last execution of every source "
        "line of s2wav it executes); bound 2: thread 0 up to every point, thread 1 up to every point, thread 0 to its end, thread 1 to its end "
        "(first execution of every line). Results of both threads are compared with the model and with a call made afterwards")
ASSUMPTIONS = ["a source line of s2wav is atomic, as are the NumPy/JAX/Torch calls it makes", "two threads, one call each"]
CHUNK = 1
_expected = {}

PAIRS1 = [
    # same family, colliding configurations; equal operations share their argument objects
    ("an:vec", "sA", "an:vec", "sA"), ("an:vec", "sA", "an:vec", "nN3"), ("an:vec", "sA", "an:vec", "sJ1"), ("an:vec", "sA", "sy:vec", "sA"),
    ("sy:vec", "sA", "sy:vec", "sA"), ("sy:vec", "sA", "sy:vec", "sreal"), ("sy:vec", "nN3", "an:vec", "sJ1"), ("an:vec", "sreal", "an:vec", "sA"),
    ("an:loop", "sA", "an:loop", "sJ1"), ("sy:loop", "sA", "an:loop", "sA"), ("an:vec", "sA", "an:loop", "sA"), ("sy:loop", "sA", "sy:loop", "sreal"),
    ("filt:vec", "A", "filt:vec", "N3"), ("filt:vec", "A", "filt:vec", "lam3"), ("filt:vec", "A", "filt:vec", "J1"), ("filt:vec", "A", "filt:vec", "spin1"), ("filt:vec", "A", "filt:vec", "A"),
    ("filt:loop", "A", "filt:loop", "N3"), ("filt:loop", "A", "filt:loop", "lam3"), ("filt:loop", "A", "filt:vec", "A"), ("filt:loop", "A", "filt:loop", "J1"),
    ("axi:vec", "A", "axi:loop", "J1"), ("axi:vec", "A", "axi:vec", "lam3"), ("k_lam", "A", "k_lam", "lam3"), ("direction", "A", "direction", "N3"),
    ("filt:tvec", "A", "filt:vec", "A"), ("filt:tvec", "A", "filt:tvec", "J1"), ("filt:jax", "sA", "filt:jax", "nN3"), ("filt:jax", "sA", "filt:vec", "sA"),
    ("an:ptorch", "sA", "an:ptorch", "sA"), ("an:ptorch", "sA", "an:ptorch", "nN3"), ("an:ptorch", "sA", "sy:ptorch", "sA"), ("sy:ptorch", "sA", "sy:ptorch", "sA"),
    ("sy:ptorch", "sA", "sy:ptorch", "sJ1"), ("flm:ptorch", "sA", "an:ptorch", "sA"), ("flm:ptorch", "sA", "flm:ptorch", "sJ1"), ("an0:ptorch", "sA", "an0:ptorch", "nN3"),
    ("an:pjax", "sA", "an:pjax", "nN3"), ("sy:pjax", "sA", "an:pjax", "sA"), ("sy:pjax", "sA", "sy:pjax", "sJ1"), ("flm:pjax", "sA", "flm:pjax", "nN3"),
    ("an:c", "sA", "an:c", "nN3"), ("sy:c", "sA", "an:c", "sA"), ("sy:c", "sA", "sy:c", "sJ1"), ("flm:c", "sA", "flm:c", "sJ1"),
    ("an:jax", "sA", "an:jax", "nN3"), ("sy:jax", "sA", "an:jax", "sA"), ("sy:jax", "sA", "sy:jax", "sJ1"), ("flm:jax", "sA", "an:jax", "sA"), ("an:jax", "sA", "an:jax", "sreal"),
    ("pre:torch", "sA", "pre:torch", "nN3"), ("pre:full", "sA", "pre:full", "sreal"), ("pre:full", "sA", "pre:fullfw", "sA"), ("pre:wigner", "sA", "pre:wigner", "nN3"), ("pre:wigner", "sA", "pre:wignerfw", "sA"),
    ("c_f", "A", "c_f", "full"), ("c_flmn", "A", "c_flmn", "N3"), ("c_flmn", "A", "c_flmn", "A"), ("c_flm", "A", "c_flm", "J1"), ("c_flmn_torch", "A", "c_flmn_torch", "A"),
    ("an:vec", "sA", "an:ptorch", "sA"), ("an:vec", "sA", "an:jax", "sA"), ("an:c", "sA", "an:pjax", "sA"), ("sy:vec", "sA", "sy:ptorch", "sA"), ("scat", "A", "an:vec", "A"),
]
PAIRS2 = [("axi:vec", "A", "axi:vec", "J1"), ("k_lam", "A", "k_lam", "lam3"), ("c_flmn", "A", "c_flmn", "N3"), ("c_flm", "A", "c_flm", "A"),
          ("direction", "A", "direction", "N3"), ("c_f", "A", "c_f", "full")]
PAIRS2T = [("filt:vec", "A", "filt:vec", "N3"), ("filt:vec", "A", "filt:vec", "lam3"), ("flm:ptorch", "sA", "flm:ptorch", "nN3")]
# explored in one order only by the quick tier (the other order in the thorough tier)
ONE_WAY = {"loop", "jax", "c", "pjax"}


def plan(tier):
    out = []
    for i, p in enumerate(PAIRS2):
        out.append(("eager", f"b2-{i}", [2, list(p[:2]), list(p[2:])]))
    for i, p in enumerate(PAIRS1):
        out.append(("eager", f"b1-{i}", [1, list(p[:2]), list(p[2:])]))
        if p[:2] != p[2:] and (tier == "thorough" or not (p[0].partition(":")[2] in ONE_WAY or p[0] == "scat" or p[0].partition(":")[2] != p[2].partition(":")[2])):
            out.append(("eager", f"b1r-{i}", [1, list(p[2:]), list(p[:2])]))
    if tier == "thorough":
        for i, p in enumerate(PAIRS2T):
            out.append(("eager", f"b2u-{i}", [2, list(p[:2]), list(p[2:])]))
        for i, p in enumerate(PAIRS1):
            if p not in PAIRS2 + PAIRS2T and "jax" not in p[0] + p[2]:
                out.append(("eager", f"b2t-{i}", [2, list(p[:2]), list(p[2:])]))
    return out


def execute(ctx, a, b, switches, record=False):
    m = env.load(ctx.mode, fresh=True)
    M = ops.Machine(m, ctx.seed)
    ta, Ia, wa = M.prepare(a)
    if b is None:
        bodies, ins, want = [ta], [Ia], [wa]
    elif a == b:  # the same call on the same argument objects
        bodies, ins, want = [ta, ta], [Ia], [wa, wa]
    else:
        tb, Ib, wb = M.prepare(b)
        bodies, ins, want = [ta, tb], [Ia, Ib], [wa, wb]
    for i in ins:
        i.snapshot()
    root = os.path.realpath(os.path.join(env.REPO, "s2wav")) + os.sep
    r = sched.Run(root, bodies, switches)
    ctx.transition()
    try:
        res, err = r.go(record)
    except TimeoutError as e:
        ctx.fail("deadlock", f"{a} || {b} schedule {switches}: {e}")
    for k, e in enumerate(err):
        if e is not None:
            ctx.fail(f"{(a, b)[k]} raised {type(e).__name__} when run concurrently", f"{e} (other thread: {(b, a)[k]}, switch points {switches})")
    return r, M, res, want, ins


def norm(x):
    return [ops.to_np(v) for v in ops.leaves(x)]


def exp_of(ctx, op):
    k = tuple(op)
    if k not in _expected:
        r, M, res, want, _ = execute(ctx, op, None, [], record=True)
        _expected[k] = (want[0] if want[0] is not None else norm(res[0]), r.trace[0])
        # replaying the schedule visits the same points
        r2 = execute(ctx, op, None, [], record=True)[0]
        if r2.trace[0] != r.trace[0]:
            _expected[k] = (_expected[k][0], r.trace[0] if len(r.trace[0]) < len(r2.trace[0]) else r2.trace[0])
    return _expected[k]


def compare(ctx, what, op, got, exp):
    got = norm(got)
    ctx.check(what + " structure", len(got) == len(exp), f"{len(got)} vs {len(exp)}")
    for i, (x, y) in enumerate(zip(got, exp)):
        ctx.close(f"{what} item {i}", x, y, 1e-7 if op[0].startswith(("filt", "axi")) else 1e-9)


def run(ctx, t):
    bound, a, b = t
    ea, ta = exp_of(ctx, a)
    eb, tb = exp_of(ctx, b)

    def one(switches):
        r, M, res, _, ins = execute(ctx, a, b, switches)
        ctx.outcome("switched" if r.used else "not switched")
        where = ", ".join(f"thread {i} at {line_of(ta if i == 0 else tb, k)}" for i, k in switches)
        compare(ctx, f"{a} (thread 0 of {a}||{b}, switches: {where})", a, res[0], ea)
        compare(ctx, f"{b} (thread 1 of {a}||{b}, switches: {where})", b, res[1], eb)
        for i in ins:
            n = i.changed()
            ctx.check("arguments unchanged", n is None, f"{n} after {a}||{b}, switches: {where}")
        # the package is left usable
        if switches[-1][1] % 7 == 0:
            th, _, _ = M.prepare(a)
            compare(ctx, f"{a} after {a}||{b}, switches: {where}", a, ctx.call(str(a), th), ea)
        ctx.state(tuple(switches))
        ctx.trace()

    if bound == 1:
        for k in sched.points(ta, full=True):
            one([(0, k)])
        return
    for k in sched.points(ta):
        for q in sched.points(tb):
            one([(0, k), (1, q)])


def line_of(trace, k):
    f, n = trace[k] if k < len(trace) else ("?", 0)
    return f"{os.path.basename(f)}:{n}"
