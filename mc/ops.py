"""Operations of the history and thread checks: every public entry point under colliding configurations.

An operation is [function name, variant name].  Variants differ from A in one argument, so that any state kept
between calls and keyed on too few arguments collides.
"""
import numpy as np

import lat
import ref
from backends import Backends, Cfg, to_np, to_torch

V = {
    "A": Cfg(4, 2, 0, 2.0, 0, "mw"),
    "N3": Cfg(4, 3, 0, 2.0, 0, "mw"),
    "J1": Cfg(4, 2, 1, 2.0, 0, "mw"),
    "lam3": Cfg(4, 2, 0, 3.0, 0, "mw"),
    "spin1": Cfg(4, 2, 0, 2.0, 1, "mw"),
    "dh": Cfg(4, 2, 0, 2.0, 0, "dh"),
    "mwss": Cfg(4, 2, 0, 2.0, 0, "mwss"),
    "gl": Cfg(4, 2, 0, 2.0, 0, "gl"),
    "real": Cfg(4, 2, 0, 2.0, 0, "mw", True),
    "L3": Cfg(3, 2, 0, 2.0, 0, "mw"),
    "full": Cfg(4, 2, 0, 2.0, 0, "mw", False, False),
    "nN3": Cfg(3, 3, 0, 2.0, 0, "mw"),
    "sA": Cfg(3, 2, 0, 2.0, 0, "mw"),
    "sreal": Cfg(3, 2, 0, 2.0, 0, "mw", True),
    "sJ1": Cfg(3, 2, 1, 2.0, 0, "mw"),
    "h1": Cfg(8, 2, 2, 2.0, 0, "healpix", False, True, 1),
    "h2": Cfg(8, 2, 2, 2.0, 0, "healpix", False, True, 2),
    "g2": Cfg(16, 2, 3, 2.0, 0, "healpix", False, True, 2),
    "g4": Cfg(16, 2, 3, 2.0, 0, "healpix", False, True, 4),
    "g4r": Cfg(16, 2, 3, 2.0, 0, "healpix", True, True, 4),
}


class Inputs:
    """Everything passed to a call, with a snapshot to detect modification."""

    def __init__(self):
        self.items = []  # (name, object)
        self.snap = None

    def add(self, name, x):
        self.items.append((name, x))
        return x

    @staticmethod
    def freeze(x):
        if x is None or isinstance(x, (int, float, str)):
            return x
        if isinstance(x, (list, tuple)):
            return [Inputs.freeze(y) for y in x]
        return to_np(x)

    def snapshot(self):
        self.snap = [(n, self.freeze(x)) for n, x in self.items]

    def changed(self):
        for (n, a), (_, x) in zip(self.snap, self.items):
            if not same(a, self.freeze(x)):
                return n
        return None

    def poison(self):
        for _, x in self.items:
            scribble(x)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)
    return a == b


def scribble(x):
    """Overwrite every mutable array in x and empty every list."""
    if isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 7.25
    elif hasattr(x, "resolve_conj"):
        import torch

        with torch.no_grad():
            try:
                x.fill_(7.25)
            except RuntimeError:
                pass


_cache = {}


def data(c, seed):
    """Signal, coefficient maps and the model's answers for configuration c."""
    k = (c, seed)
    if c.sampling == "healpix" and k not in _cache:
        from checks import c20

        r = lat.rng_for(seed, "hpx", c)
        gen = lambda *s: r.standard_normal(s) + (0 if c.reality else 1j * r.standard_normal(s))  # noqa: E731
        cut = (lambda x: x.real) if c.reality else (lambda x: x)
        npix = 12 * c.nside**2
        flm, f = lat.generic_flm(c.L, 0, c.reality, seed), gen(npix)
        mw = [gen(2 * ref.wav_N(c.L, c.N, j, c.lam, c.multires) - 1, npix) for j in range(c.J_min, ref.j_max(c.L, c.lam) + 1)]
        ms = gen(npix)
        rw, rs = c20.m_analysis(c, f)
        fw, _ = c20.m_flm(c, flm)
        _cache[k] = dict(flm=flm, f=f, mw=mw, ms=ms, rw=[cut(x) for x in rw], rs=cut(rs), fw=[cut(x) for x in fw], syn=cut(c20.m_synthesis(c, mw, ms)),
                         filt=ref.filters(c.L, c.N, c.J_min, c.lam, c.spin), kap=ref.kappa(c.L, c.J_min, c.lam))
    if k not in _cache:
        flm = lat.generic_flm(c.L, c.spin, c.reality, seed)
        hw, hs = lat.generic_coeffs(c, seed)
        mw, ms = lat.coeff_maps(c, hw, hs)
        rw, rs = lat.model_analysis(c, flm)
        if c.reality:
            rw, rs = [x.real for x in rw], rs.real
        _cache[k] = dict(flm=flm, f=lat.signal(c, flm), mw=mw, ms=ms, rw=rw, rs=rs, syn=lat.signal(c, lat.model_synthesis_flm(c, hw, hs)),
                         filt=ref.filters(c.L, c.N, c.J_min, c.lam, c.spin), kap=ref.kappa(c.L, c.J_min, c.lam))
    return _cache[k]


def leaves(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in leaves(y)]
    return [x]


class Machine:
    """One loaded copy of s2wav with the objects a user keeps between calls."""

    def __init__(self, m, seed):
        self.m, self.seed = m, seed
        self.B = Backends(m)

    def prepare(self, op):
        """Return (thunk, Inputs, model answer or None)."""
        fn, v = op
        c = V[v]
        d = data(c, self.seed)
        m, B = self.m, self.B
        I = Inputs()
        F, sm, co = m.filters, m.samples, m.construct
        a5 = (c.L, c.N, c.J_min, c.lam, c.spin)
        kind, _, b = fn.partition(":")
        if kind in ("an", "sy", "flm", "an0"):
            filt = None
            if b not in ("vec", "loop") and kind != "an0":
                filt = I.add("filters", B.filt(b, c))
            pre = None
            if b in ("pjax", "ptorch"):
                pre = I.add("precomps", B.precomps(b, c, kind == "sy"))
            if kind in ("an", "an0"):
                f = I.add("signal", B.arr(b, d["f"]))
                want = d["rw"] + [d["rs"]]
                if kind == "an0":
                    mod = {"jax": m.wavelet, "c": m.wavelet_c, "pjax": m.pre, "ptorch": m.pret}[b]
                    kw = {"precomps": pre} if pre is not None else {}
                    return (lambda: mod.analysis(f, c.L, c.N, c.J_min, lam=c.lam, spin=c.spin, sampling=c.sampling, reality=c.reality, **kw)), I, want
                return (lambda: B.analysis(b, c, f, filt, pre)), I, want
            if kind == "sy":
                w = I.add("wavelet coefficients", [B.arr(b, x) for x in d["mw"]])
                s = I.add("scaling coefficients", B.arr(b, d["ms"]))
                return (lambda: B.synthesis(b, c, w, s, filt, pre)), I, [d["syn"]]
            flm = I.add("flm", B.arr(b, d["flm"]))
            return (lambda: B.flm_to_analysis(b, c, flm, None, filt[0], pre)), I, d.get("fw", d["rw"])
        if fn == "scat":
            f = I.add("signal", np.array(d["f"]))
            return (lambda: m.base.analysis(f, c.L, c.N, c.J_min, c.lam, c.spin, 0, c.sampling, c.nside, c.reality, c.multires, True)), I, [np.abs(x) for x in d["rw"]] + [d["rs"]]
        simple = {
            "filt:loop": (lambda: F.filters_directional(*a5), list(d["filt"])),
            "filt:vec": (lambda: F.filters_directional_vectorised(*a5), list(d["filt"])),
            "filt:jax": (lambda: F.filters_directional_jax(*a5), list(d["filt"])),
            "filt:tvec": (lambda: F.filters_directional_vectorised(*a5, using_torch=True), list(d["filt"])),
            "filt:tloop": (lambda: F.filters_directional(*a5, using_torch=True), list(d["filt"])),
            "axi:loop": (lambda: F.filters_axisym(c.L, c.J_min, c.lam), list(d["kap"])),
            "axi:vec": (lambda: F.filters_axisym_vectorised(c.L, c.J_min, c.lam), list(d["kap"])),
            "axi:jax": (lambda: F.filters_axisym_jax(c.L, c.J_min, c.lam), list(d["kap"])),
            "k_lam": (lambda: F.k_lam(c.L, c.lam), None),
            "k_lam_jax": (lambda: F.k_lam_jax(c.L, c.lam), None),
            "direction": (lambda: F.tiling_direction(c.L, c.N), None),
            "direction_jax": (lambda: F.tiling_direction_jax(c.L, c.N), None),
            "pre:full": (lambda: co.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality, spin=c.spin), None),
            "pre:fullfw": (lambda: co.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, True, c.reality, spin=c.spin), None),
            "pre:torch": (lambda: co.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality, using_torch=True, spin=c.spin), None),
            "pre:torchfw": (lambda: co.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, True, c.reality, using_torch=True, spin=c.spin), None),
            "pre:nosph": (lambda: co.generate_full_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality, True), None),
            "pre:wigner": (lambda: co.generate_wigner_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, False, c.reality), None),
            "pre:wignerfw": (lambda: co.generate_wigner_precomputes(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, True, c.reality), None),
            "c_f": (lambda: sm.construct_f(c.L, c.N, c.J_min, c.lam, c.sampling, c.nside, c.multires), None),
            "c_flm": (lambda: sm.construct_flm(c.L, c.J_min, c.lam, c.multires), None),
            "c_flmn": (lambda: sm.construct_flmn(c.L, c.N, c.J_min, c.lam, c.multires), None),
            "c_flmn_torch": (lambda: sm.construct_flmn_torch(c.L, c.N, c.J_min, None, c.lam, c.multires), None),
            "c_flmn_jax": (lambda: sm.construct_flmn_jax(c.L, c.N, c.J_min, None, c.lam, c.multires), None),
            "c_flm_jax": (lambda: sm.construct_flm_jax(c.L, c.J_min, c.lam, c.multires), None),
            "c_f_torch": (lambda: sm.construct_f_torch(c.L, c.J_min, None, c.lam), None),
            "c_f_jax": (lambda: sm.construct_f_jax(c.L, c.J_min, None, c.lam), None),
        }
        th, want = simple[fn]
        return th, I, want


def families():
    np_ = [["an:vec", v] for v in ("A", "N3", "J1", "lam3", "spin1", "dh", "mwss", "real", "L3", "full")]
    np_ += [["sy:vec", v] for v in ("A", "N3", "J1", "lam3", "spin1", "real", "full")]
    np_ += [["an:loop", v] for v in ("A", "N3", "real")] + [["sy:loop", v] for v in ("A", "J1", "real")]
    np_ += [["scat", "A"]]
    np_ += [[f, v] for f in ("filt:loop", "filt:vec") for v in ("A", "N3", "J1", "lam3", "spin1") if (f, v) != ("filt:loop", "lam3")]
    np_ += [[f, v] for f in ("axi:loop", "axi:vec") for v in ("A", "J1")]
    np_ += [["k_lam", "A"], ["direction", "A"], ["direction", "N3"], ["c_f", "A"], ["c_flm", "A"], ["c_flmn", "A"], ["c_flmn", "full"]]
    tor = [[f, v] for f in ("an:ptorch", "sy:ptorch") for v in ("A", "N3", "J1", "lam3", "dh", "real", "spin1")] + [["an:ptorch", "mwss"], ["an:ptorch", "L3"]]
    tor += [["flm:ptorch", v] for v in ("A", "N3", "J1", "real")]
    tor += [["an0:ptorch", v] for v in ("A", "N3", "J1")]
    tor += [["filt:tvec", v] for v in ("A", "N3", "J1", "lam3", "spin1")] + [["filt:tloop", "A"], ["filt:tloop", "spin1"], ["filt:vec", "A"]]
    tor += [["pre:torch", v] for v in ("A", "N3", "J1", "real", "spin1")] + [["pre:torchfw", "A"], ["pre:full", "A"], ["c_flmn_torch", "A"], ["c_f_torch", "A"]]
    hpx = [[f, v] for f in ("an:vec", "sy:vec", "c_f") for v in ("h1", "h2", "A")]
    hpt = [[f, v] for f in ("an:ptorch", "sy:ptorch", "pre:torch") for v in ("g2", "g4")] + [["flm:ptorch", "g4"], ["an:ptorch", "g4r"]]
    c = [[f, v] for f in ("an:c", "sy:c", "flm:c") for v in ("A", "N3", "J1", "dh", "real")] + [["an:c", "spin1"], ["sy:c", "lam3"], ["an:c", "lam3"], ["sy:c", "spin1"], ["an0:c", "A"], ["an0:c", "J1"]]
    c += [["filt:vec", v] for v in ("A", "J1", "spin1")] + [["filt:jax", "A"], ["c_flmn_jax", "A"]]
    pj = [[f, v] for f in ("an:pjax", "sy:pjax") for v in ("A", "N3", "J1", "lam3", "dh", "real", "spin1")] + [["flm:pjax", v] for v in ("A", "N3", "real")] + [["an0:pjax", "A"]]
    pj += [["filt:vec", "A"], ["filt:jax", "A"], ["filt:jax", "N3"], ["filt:jax", "J1"], ["pre:full", "A"], ["pre:full", "real"], ["pre:fullfw", "A"], ["pre:nosph", "A"], ["c_flmn_jax", "A"], ["c_f_jax", "A"]]
    hpj = [[f, v] for f in ("an:pjax", "pre:full") for v in ("g2", "g4")]
    jx = [[f, v] for f in ("an:jax", "sy:jax") for v in ("A", "N3", "J1", "real", "spin1")] + [["flm:jax", "A"], ["flm:jax", "real"], ["an0:jax", "A"]]
    jx += [["pre:wigner", v] for v in ("A", "N3", "J1", "real")] + [["pre:wignerfw", "A"], ["filt:jax", "A"], ["k_lam_jax", "A"], ["direction_jax", "N3"], ["pre:wigner", "h1"], ["pre:wigner", "h2"]]
    mix = [["an:" + b, v] for b in ("vec", "loop", "jax", "c", "pjax", "ptorch") for v in ("A", "J1")] + [["sy:" + b, "A"] for b in ("vec", "jax", "c", "pjax", "ptorch")]
    mix += [["filt:" + g, "A"] for g in ("loop", "vec", "jax", "tvec", "tloop")] + [["pre:full", "A"], ["pre:torch", "A"], ["pre:wigner", "A"]]
    return {"np": np_, "torch": tor, "c": c, "pjax": pj, "jax": jx, "mix": mix, "hpx": hpx, "hpt": hpt, "hpj": hpj}


def tour(n):
    """A sequence over range(n) that contains every ordered pair, including repetitions (order-2 de Bruijn)."""
    adj = {i: list(range(n))[::-1] for i in range(n)}
    stack, path = [0], []
    while stack:
        u = stack[-1]
        if adj[u]:
            stack.append(adj[u].pop())
        else:
            path.append(stack.pop())
    return path[::-1]
