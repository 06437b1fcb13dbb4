"""Writes MANIFEST.json: one check per property that has a module in mc/checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEQ = "explicit-state model checking: exhaustive bounded enumeration of "
T = {
    "C01": SEQ + "filter configurations, invariant evaluated on every multipole of the real filter banks",
    "C02": SEQ + "filter configurations and (scale, l, m) entries, conformance of the real code to a reference model",
    "C03": SEQ + "filter configurations x (spin, spin0), conformance of the real code to a reference model",
    "C09": SEQ + "configurations x implementations; signal->coefficients->signal histories executed on the real code",
    "C10": SEQ + "configurations x implementations; energy invariant on every coefficient map of the real code",
    "C11": SEQ + "implementation pairs x optional-argument combinations x configurations on the real code",
    "C12": SEQ + "truncations x kernel layouts x configurations, conformance of the real code to a reference model",
    "C13": SEQ + "size configurations, conformance of the real helpers to a reference model",
    "C14": SEQ + "reality settings x configurations x implementations on the real code",
    "C15": SEQ + "input basis directions x configurations; gradients of the real code against its own linear map",
    "C16": "explicit-state exploration of all call sequences up to a depth on the real code (fresh process images and de Bruijn tours)",
    "C17": "stateless model checking: all two-thread interleavings at line granularity up to a preemption bound, controlled scheduler on the real code",
    "C18": SEQ + "invalid and boundary requests over every entry point of the real code",
    "C19": SEQ + "configurations x implementations x rotations; equivariance on the real code",
    "C20": SEQ + "HEALPix configurations, conformance of the real code to a reference model",
}
for i in ("C04", "C05", "C06", "C07", "C08"):
    T[i] = SEQ + "configurations x signal/coefficient alphabets; model traces replayed on the real implementation"
NOTE = {
    "C16": "Exhaustive over the listed operations and depth; longer interference chains and other operations are outside the bound.",
    "C17": "Exhaustive over the scheduling points (every source line of s2wav at its first, second and last execution) with the stated preemption bound; switches inside NumPy/JAX/Torch calls are not explored.",
}
DEF = ("Exhaustive over the configuration lattice named in the evidence (bounds in DESIGN.md); for the transforms one generic signal per "
       "configuration represents all signals by linearity, and complete bases are run on part of the lattice. Trusted: the dense reference model in "
       "mc/ref.py, NumPy, and that behaviour beyond the bounds follows the same code paths.")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"{PY} mc/run.py {i} --tier quick", "thorough_cmd": f"{PY} mc/run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking", "level_note": NOTE.get(i, DEF),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": f"{PY} -c 'import numpy, scipy, jax, torch, s2fft'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Checks import s2wav from /repo's working tree; genuine defects found are fixed in 'fix:' commits or listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
