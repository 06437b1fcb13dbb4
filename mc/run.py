"""Runner of every check.

    run.py <PROPERTY> [--tier quick|thorough] [--workers N] [--replay FILE] [--list]

A check module (checks/<id>.py) provides

    PROPERTY, TECHNIQUE, RULE, ASSUMPTIONS
    plan(tier) -> list of (mode, group, task): the complete, finite space to be explored.
                  mode is how s2wav is loaded (see env.py), group names the tasks that share
                  compiled kernels, task is a JSON value.  Simplest tasks first.
    run(ctx, task)  executes one task against the real code inside a worker; reports through
                  ctx (ctx.state / ctx.transition / ctx.trace / ctx.check / ctx.call ...)

The runner distributes the groups over worker processes, stops at the first violation, writes
evidence/<id>.json and, for a violation, replays/<id>.json.
"""
import argparse
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}
HANG = 420.0


class Worker:
    def __init__(self, prop, n):
        self.prop, self.n = prop, n
        r, w = os.pipe()
        env = dict(os.environ)
        env.setdefault("JAX_PLATFORMS", "cpu")
        env.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.p = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), prop, str(w)],
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            pass_fds=(w,), env=env, start_new_session=True,
        )
        os.close(w)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.r = r
        self.last = time.time()
        self.buf = b""
        self.err = b""
        self.job = None

    def send(self, job):
        self.job = job
        self.p.stdin.write((json.dumps(job) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        os.close(self.r)

    def drain_err(self):
        try:
            d = self.p.stderr.read()
            if d:
                self.err = (self.err + d)[-4000:]
        except Exception:
            pass
        return self.err.decode(errors="replace")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    if a.tier not in DEADLINE:
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_SEED"] = str(seed)
    os.environ["VERIF_TIER"] = a.tier
    t0 = time.time()
    prof = open(os.environ['VERIF_PROFILE'], 'w') if os.environ.get('VERIF_PROFILE') else None
    mod = importlib.import_module(f"checks.{a.prop.lower()}")
    if a.replay:
        rep = json.load(open(a.replay))
        plan = [(rep["mode"], "replay", rep["task"])]
    else:
        plan = mod.plan(a.tier)
    jobs, order = {}, []
    for mode, group, task in plan:
        k = (mode, str(group))
        if k not in jobs:
            jobs[k] = []
            order.append(k)
        jobs[k].append(task)
    if a.list:
        print(len(plan), "tasks in", len(order), "groups")
        return 0
    # long groups are split so that the load balances; a chunk keeps its group's order
    queue = []
    for k in order:
        ts = jobs[k]
        chunk = getattr(mod, "CHUNK", 40)
        for i in range(0, len(ts), chunk):
            queue.append({"mode": k[0], "group": k[1], "tasks": ts[i : i + chunk]})
    total = len(plan)
    tot = {"states": 0, "transitions": 0, "traces": 0, "comparisons": 0}
    outcomes = {}
    samples, known, violation, error = [], {}, None, None
    done = 0
    worst = margin = 0.0
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", DEADLINE[a.tier]))
    modes_of = {}
    sel = selectors.DefaultSelector()
    workers = []
    retried = set()

    def spawn():
        w = Worker(a.prop, len(workers))
        workers.append(w)
        sel.register(w.r, selectors.EVENT_READ, w)
        return w

    def feed(w):
        if not queue:
            w.job = None
            return
        # prefer a chunk with the mode this worker already has loaded
        i = 0
        want = modes_of.get(w)
        if want:
            for n, q in enumerate(queue):
                if q["mode"] == want:
                    i = n
                    break
        job = queue.pop(i)
        modes_of[w] = job["mode"]
        job["left"] = list(job["tasks"])
        w.send({k: job[k] for k in ("mode", "group", "tasks")})
        w.job = job
        w.last = time.time()

    for _ in range(max(1, min(a.workers, len(queue)))):
        feed(spawn())
    timed_out = False
    while any(w.job for w in workers):
        if time.time() > deadline:
            timed_out = True
            break
        for w in workers:  # a single task takes seconds; this long without a result is a hang
            if w.job and time.time() - w.last > HANG:
                violation = {"mode": w.job["mode"], "task": w.job["left"][0] if w.job["left"] else None,
                             "what": "non-termination", "detail": f"no result within {HANG:.0f} s"}
        if violation and not a.keep_going:
            break
        ev = sel.select(timeout=5)
        for key, _ in ev:
            w = key.data
            data = os.read(w.r, 1 << 20)
            w.drain_err()
            if not data:  # worker died
                w.p.wait()
                sel.unregister(w.r)
                job = w.job
                w.job = None
                if job is None:
                    continue
                t = job["left"][0] if job["left"] else None
                tag = json.dumps(t)
                msg = f"worker ended with status {w.p.returncode}: {w.drain_err()[-1500:]}"
                if tag in retried:
                    if w.p.returncode in (-9, -15, 137):
                        error = msg  # killed from outside (memory): no verdict
                    else:
                        violation = {"mode": job["mode"], "task": t, "what": "process crash", "detail": msg}
                    break
                retried.add(tag)
                queue.insert(0, {"mode": job["mode"], "group": job["group"], "tasks": job["left"]})
                feed(spawn())
                continue
            w.buf += data
            w.last = time.time()
            while b"\n" in w.buf:
                line, w.buf = w.buf.split(b"\n", 1)
                r = json.loads(line)
                if r.get("end"):
                    feed(w)
                    continue
                if "harness" in r:
                    error = r["harness"]
                    break
                if "import" in r:  # s2wav cannot even be imported: nothing it promises holds
                    violation = {"mode": w.job["mode"], "task": w.job["tasks"][0], "what": "import of s2wav", "detail": r["import"]}
                    break
                done += 1
                if prof is not None:
                    prof.write(json.dumps([r['t'], w.job['mode'], w.job['group'], r['task']]) + '\n')
                w.job["left"].pop(0)
                for k in tot:
                    tot[k] += r["n"].get(k, 0)
                worst, margin = max(worst, r.get("worst", 0.0)), max(margin, r.get("margin", 0.0))
                for k, v in r.get("outcomes", {}).items():
                    outcomes[k] = outcomes.get(k, 0) + v
                for k in r.get("known", []):
                    known[k] = known.get(k, 0) + 1
                if len(samples) < 6 and r.get("sample") is not None and done % max(1, total // 5) < 2:
                    samples.append(r["sample"])
                if r.get("violation") and violation is None:
                    violation = dict(r["violation"], mode=w.job["mode"], task=r["task"])
            if error or (violation and not a.keep_going):
                break
        if error or (violation and not a.keep_going):
            break
    for w in workers:
        w.kill()
    kf = load_known()
    listed = {f["id"]: f for f in kf["findings"] if f["property"] == a.prop or a.prop in f.get("also", [])}
    for k in sorted(known):
        f = listed.get(k)
        if f:
            print(f"KNOWN-FINDING: property={a.prop} {k}: {f['what']} ({known[k]} explored cases)")
        elif violation is None:
            violation = {"mode": "?", "task": None, "what": f"unlisted finding {k}", "detail": ""}
    wall = time.time() - t0
    cov = {
        "states": tot["states"], "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"], "comparisons_with_model": tot["comparisons"],
        "tasks_planned": total, "tasks_completed": done,
        "exhaustive": bool(done == total and not violation and not a.replay),
        "distinct_outcomes": outcomes, "worst_deviation_from_model": worst, "worst_deviation_over_tolerance": margin,
        "rule": mod.RULE, "samples": samples or [plan[0][2]] if plan else [],
        "known_findings": known,
    }
    if timed_out:
        cov["cap"] = f"stopped at the time limit after {done} of {total} tasks"
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print(f"{a.prop}: {done}/{total} tasks, states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} comparisons={tot['comparisons']} worst={worst:.2e} margin={margin:.2f} wall={wall:.1f}s"
          + (" (time limit)" if timed_out else ""))
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        p = a.replay or os.path.join(VERIF, "replays", f"{a.prop}.json")
        if not a.replay:
            with open(p, "w") as fh:
                json.dump(dict(violation, property=a.prop, how=f"{PY} {HERE}/run.py {a.prop} --replay {p}"), fh, indent=1)
        print("  " + violation["what"] + ": " + str(violation.get("detail", ""))[-1500:])
        print(f"  task: {json.dumps(violation['task'])}")
        print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if error:
        print("harness error: " + error[-3000:], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
