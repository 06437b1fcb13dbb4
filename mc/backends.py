"""One calling convention for the six transform implementations of s2wav."""
from collections import namedtuple

import numpy as np

_Cfg = namedtuple("Cfg", "L N J_min lam spin sampling reality multires nside")


def Cfg(L, N=1, J_min=0, lam=2.0, spin=0, sampling="mw", reality=False, multires=True, nside=None):
    return _Cfg(L, N, J_min, lam, spin, sampling, reality, multires, nside)


ALL = ("loop", "vec", "jax", "c", "pjax", "ptorch")


def to_np(x):
    """Independent numpy copy of a numpy/jax/torch array."""
    if hasattr(x, "resolve_conj"):
        x = x.detach().resolve_conj().resolve_neg().numpy()
    return np.array(x)


def to_torch(x):
    import torch

    return torch.from_numpy(np.array(x))


class Backends:
    """Dispatch to the real s2wav functions.  Filters default to s2wav's own generators."""

    def __init__(self, m):
        self.m = m
        self._filt = {}
        self._pre = {}

    # -- filters a user would pass
    def filt(self, b, c, fresh=False):
        key = (b == "ptorch", c.L, c.N, c.J_min, c.lam, c.spin)
        if fresh or key not in self._filt:
            self._filt[key] = self.m.filters.filters_directional_vectorised(
                c.L, c.N, c.J_min, c.lam, c.spin, using_torch=(b == "ptorch")
            )
        return self._filt[key]

    # -- precomputes a user would pass
    def precomps(self, b, c, forward, fresh=False):
        if b in ("pjax", "ptorch"):
            key = (b, c, forward)
            if fresh or key not in self._pre:
                self._pre[key] = self.m.construct.generate_full_precomputes(
                    c.L, c.N, c.J_min, c.lam, c.sampling, c.nside,
                    forward=forward, reality=c.reality, using_torch=(b == "ptorch"), spin=c.spin,
                )
            return self._pre[key]
        return None

    def analysis(self, b, c, f, filters=None, precomps=None):
        m = self.m
        if b == "loop":
            return m.base.analysis_looped(f, c.L, c.N, c.J_min, c.lam, c.spin, 0, c.sampling, c.nside, c.reality, c.multires)
        if b == "vec":
            return m.base.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, 0, c.sampling, c.nside, c.reality, c.multires)
        filters = self.filt(b, c) if filters is None else filters
        if b == "jax":
            return m.wavelet.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        if b == "c":
            return m.wavelet_c.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.reality, filters)
        precomps = self.precomps(b, c, False) if precomps is None else precomps
        if b == "pjax":
            return m.pre.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        if b == "ptorch":
            return m.pret.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        raise KeyError(b)

    def synthesis(self, b, c, f_wav, f_scal, filters=None, precomps=None):
        m = self.m
        if b == "loop":
            return m.base.synthesis_looped(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, 0, c.sampling, c.nside, c.reality, c.multires)
        if b == "vec":
            return m.base.synthesis(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, 0, c.sampling, c.nside, c.reality, c.multires)
        filters = self.filt(b, c) if filters is None else filters
        if b == "jax":
            return m.wavelet.synthesis(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        if b == "c":
            return m.wavelet_c.synthesis(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.reality, filters)
        precomps = self.precomps(b, c, True) if precomps is None else precomps
        if b == "pjax":
            return m.pre.synthesis(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        if b == "ptorch":
            return m.pret.synthesis(f_wav, f_scal, c.L, c.N, c.J_min, c.lam, c.spin, c.sampling, c.nside, c.reality, filters, precomps)
        raise KeyError(b)

    def flm_to_analysis(self, b, c, flm, J_max=None, filters=None, precomps=None, **kw):
        m = self.m
        filters = self.filt(b, c)[0] if filters is None else filters
        if b == "jax":
            return m.wavelet.flm_to_analysis(flm, c.L, c.N, c.J_min, J_max, c.lam, c.sampling, c.nside, c.reality, filters, precomps, **kw)
        if b == "c":
            return m.wavelet_c.flm_to_analysis(flm, c.L, c.N, c.J_min, J_max, c.lam, c.sampling, c.reality, filters, **kw)
        precomps = self.precomps(b, c, False) if precomps is None else precomps
        mod = m.pre if b == "pjax" else m.pret
        return mod.flm_to_analysis(flm, c.L, c.N, c.J_min, J_max, c.lam, c.sampling, c.nside, c.reality, filters, precomps, **kw)

    @staticmethod
    def arr(b, x):
        """Native input array for backend b."""
        if b == "ptorch":
            return to_torch(x)
        if b in ("jax", "c", "pjax"):
            import jax.numpy as jnp

            return jnp.array(x)
        return np.array(x)
