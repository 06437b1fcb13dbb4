"""Process set-up shared by every check: environment, loading of s2wav from /repo.

`load(mode)` imports s2wav from /repo's working tree.

  jit    the code exactly as a user runs it (jax.jit active)
  eager  s2wav's own jax.jit decorators are replaced by the identity while s2wav is being
         imported (s2fft keeps its real jit): the same Python statements run, but XLA
         compiles each *s2fft* kernel once per (L, N, sampling, ...) instead of once per
         s2wav configuration, so far larger configuration lattices can be exhausted; s2fft's
         kernel generators (pure functions) are memoised
  plain  eager without the memoisation
"""
import importlib
import os
import sys
import warnings

for k, v in {
    "JAX_PLATFORMS": "cpu",
    "CUDA_VISIBLE_DEVICES": "",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}.items():
    os.environ.setdefault(k, v)
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true "
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def _identity_jit(fun=None, *a, **k):
    if fun is None:
        return lambda g: g
    return fun


class Mods:
    pass


def _memo(fn):
    """Memoise a pure s2fft kernel generator (results are immutable JAX arrays)."""
    import jax

    store = {}

    def memo(*a, **k):
        key = (a, tuple(sorted(k.items())))
        try:
            hit = key in store
        except TypeError:  # unhashable argument
            return fn(*a, **k)
        if hit:
            r = store[key]
            return list(r) if isinstance(r, list) else r
        r = fn(*a, **k)
        if not any(isinstance(x, jax.core.Tracer) for x in jax.tree_util.tree_leaves(r)):
            store[key] = list(r) if isinstance(r, list) else r
        return r

    memo._memo = True
    return memo


def memoise_s2fft():
    """Kernel generation of s2fft is the environment, not the code under test: compute each kernel once."""
    import s2fft
    import s2fft.precompute_transforms.construct as pc

    for mod, names in ((pc, ("wigner_kernel_jax", "spin_spherical_kernel_jax")), (s2fft, ("generate_precomputes_wigner_jax",))):
        for n in names:
            f = getattr(mod, n, None)
            if f is not None and not hasattr(f, "_memo"):
                setattr(mod, n, _memo(f))


_loaded_mode = None


def load(mode="jit", fresh=False):
    """Import s2wav and return a namespace of its public modules."""
    global _loaded_mode
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    import logging

    logging.disable(logging.WARNING)
    import jax

    jax.config.update("jax_enable_x64", True)
    import torch

    torch.set_num_threads(1)
    import s2fft  # real jit

    if mode == "eager":
        memoise_s2fft()
    if fresh or _loaded_mode not in (None, mode):
        for name in [n for n in sys.modules if n == "s2wav" or n.startswith("s2wav.")]:
            del sys.modules[name]
    real = jax.jit
    if mode in ("eager", "plain"):
        jax.jit = _identity_jit
    try:
        s2wav = importlib.import_module("s2wav")
        m = Mods()
        m.s2wav = s2wav
        m.filters = importlib.import_module("s2wav.filters")
        m.samples = importlib.import_module("s2wav.samples")
        m.base = importlib.import_module("s2wav.transforms.base")
        m.wavelet = importlib.import_module("s2wav.transforms.wavelet")
        m.wavelet_c = importlib.import_module("s2wav.transforms.wavelet_c")
        m.pre = importlib.import_module("s2wav.transforms.wavelet_precompute")
        m.pret = importlib.import_module("s2wav.transforms.wavelet_precompute_torch")
        m.construct = importlib.import_module("s2wav.transforms.construct")
    finally:
        jax.jit = real
    root = os.path.realpath(os.path.join(REPO, "s2wav"))
    if os.path.dirname(os.path.realpath(s2wav.__file__)) != root:
        raise RuntimeError(f"s2wav imported from {s2wav.__file__}, not {root}")
    _loaded_mode = mode
    m.mode = mode
    return m
