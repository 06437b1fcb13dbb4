"""Worker process: runs tasks of one check against the real code and reports results."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import env  # noqa: E402  (sets the process environment before jax is imported)


class Violation(Exception):
    def __init__(self, what, detail=""):
        super().__init__(what)
        self.what, self.detail = what, str(detail)


class Ctx:
    """What a task sees: the loaded code and the exploration counters."""

    def __init__(self, mode, seed):
        self.mode, self.seed = mode, seed
        self.m = None
        self._B = None
        self.reset(None)

    def reset(self, task):
        self.task = task
        self.n = dict(states=0, transitions=0, traces=0, comparisons=0)
        self.outcomes = {}
        self.known = []
        self.worst = self.margin = 0.0
        self.sample = None
        self._seen = set()

    @property
    def B(self):
        if self._B is None:
            from backends import Backends

            self._B = Backends(self.m)
        return self._B

    def state(self, key):
        if key not in self._seen:
            self._seen.add(key)
            self.n["states"] += 1

    def transition(self, k=1):
        self.n["transitions"] += k

    def trace(self, k=1):
        self.n["traces"] += k

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def fail(self, what, detail=""):
        raise Violation(what, detail)

    def call(self, what, fn, *a, **k):
        """Run a step of the real code; any exception in the supported domain is a violation."""
        self.transition()
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f"{what} raised {type(e).__name__}", str(e)[:300] + "\n" + traceback.format_exc(limit=-4)[-900:])

    def check(self, what, cond, detail=""):
        self.n["comparisons"] += 1
        if not cond:
            raise Violation(what, detail)

    def close(self, what, got, want, tol=1e-9, scale=None):
        """got must have want's shape and agree within tol relative to the larger of 1 and max|want|."""
        import numpy as np
        from backends import to_np

        got, want = to_np(got), np.asarray(want)
        self.n["comparisons"] += 1
        if got.shape != want.shape:
            raise Violation(what, f"shape {got.shape}, expected {want.shape}")
        if got.dtype == object or not np.issubdtype(got.dtype, np.number):
            raise Violation(what, f"dtype {got.dtype}")
        if got.size == 0:
            return
        d = np.abs(got - want)
        s = max(1.0, float(np.abs(want).max())) if scale is None else scale
        e = float(d.max()) / s if np.all(np.isfinite(d)) else float("inf")
        if not e <= tol:
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(d), d, np.inf))), d.shape)
            raise Violation(what, f"deviates by {e:.3e} (tolerance {tol:.0e}) at index {tuple(int(x) for x in i)}: got {got[i]}, model says {want[i]}")
        self.worst, self.margin = max(self.worst, e), max(self.margin, e / tol)


def main():
    prop, fd = sys.argv[1], int(sys.argv[2])
    out = os.fdopen(fd, "w", buffering=1)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctxs = {}

    def emit(o):
        out.write(json.dumps(o) + "\n")

    for line in sys.stdin:
        job = json.loads(line)
        mode = job["mode"]
        try:
            if mode not in ctxs:
                ctx = Ctx(mode, seed)
                if mode != "none":
                    try:
                        ctx.m = env.load(mode)
                    except Exception:
                        emit({"import": traceback.format_exc()[-2500:]})
                        return
                ctxs = {mode: ctx}  # one loaded copy at a time
            ctx = ctxs[mode]
            if hasattr(mod, "start_group"):
                mod.start_group(ctx, job["group"])
        except Exception:
            emit({"harness": traceback.format_exc()})
            return
        for task in job["tasks"]:
            ctx.reset(task)
            r = {"task": task}
            t = time.time()
            try:
                mod.run(ctx, task)
            except Violation as v:
                r["violation"] = {"what": v.what, "detail": v.detail}
            except MemoryError:
                emit({"harness": "out of memory\n" + traceback.format_exc()})
                return
            except Exception:
                # The harness touches only what s2wav returned; on the unchanged tree nothing is
                # raised here, so an exception means the code returned something unusable.
                r["violation"] = {"what": "unusable result", "detail": traceback.format_exc()[-2500:]}
            r.update(n=ctx.n, worst=ctx.worst, margin=ctx.margin, outcomes=ctx.outcomes, known=ctx.known, sample=ctx.sample if ctx.sample is not None else task, t=round(time.time() - t, 4))
            emit(r)
        if hasattr(mod, "end_group"):
            mod.end_group(ctx, job["group"])
        emit({"end": 1})


if __name__ == "__main__":
    main()
