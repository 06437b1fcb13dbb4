"""Writes properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })


F, SA = "s2wav/filters.py", "s2wav/samples.py"
BA, JX, CC, PJ, PT, CO = ("s2wav/transforms/" + x for x in ("base.py", "wavelet.py", "wavelet_c.py", "wavelet_precompute.py", "wavelet_precompute_torch.py", "construct.py"))

p("C01", "Wavelet and scaling filters form an admissible tight frame",
  "For every supported (L, N, J_min, lam) the scalar (spin-0) filters satisfy, at every multipole 0 <= l < L, "
  "4*pi/(2l+1) * |scaling_l|^2 + 8*pi^2/(2l+1) * (sum over scales j and orders m of |wavelet^j_{lm}|^2) = 1, so that no multipole is lost or counted twice. "
  "The squares of the axisymmetric filters likewise sum to 1; both hold for the looped, vectorised, JAX and Torch generators alike.",
  ["configurations"], "all band-limits L >= 2, directionalities 1 <= N <= L, dilations lam > 1 (integer or not), lowest scales 0 <= J_min < J_max",
  "the tests check a few L, lam in {2, 3} and J_min = 2 or 0 for agreement between generators, never the identity itself over all multipoles and dilations",
  [F], [("tiling and directional components", F + ":tiling_*, k_lam*, filters_directional*, filters_axisym*")], ["values of the returned filter arrays"])
p("C02", "Filters have the documented values, support and symmetry",
  "For every supported (L, N, J_min, lam) every generator (looped, vectorised, JAX, Torch) returns the same scale-discretised filters: shapes (J+1, L, 2L-1) and (L,), zero outside each scale's harmonic window lam^(j-1) < l < lam^(j+1), zero for scales below J_min, and only the orders m of the parity of N-1 with |m| < N. "
  "The directional coefficients at each l are those of the steerable directionality component (unit total power, the documented symmetry) times the scale's generating function, whose values are the documented integrals of the Schwartz window, and the scaling function lives on l < lam^J_min.",
  ["configurations"], "all (L, N, J_min, lam) in the supported range, every scale j and harmonic index (l, m)",
  "the tests compare generators with each other on a handful of configurations; a change shared by them, or one confined to other dilations, scales or multipoles, is invisible",
  [F, SA], [("generating functions", F + ":tiling_integrand, part_scaling_fn, k_lam, k_lam_jax"), ("directionality", F + ":tiling_direction, spin_normalization*")],
  ["values of the returned filter arrays"])
p("C03", "Spin filters are the scalar filters with the documented normalisation",
  "For every signal spin and every spin0, the spin filters equal the scalar filters multiplied at each l by (-1)^spin0 * sqrt((l+|spin0|)!/(l-|spin0|)!)^(sign of spin0) and vanish below the multipoles that exist for that spin, in every generator (looped, vectorised, JAX, Torch).",
  ["configurations"], "all (L, N, J_min, lam, spin, spin0), positive, negative and zero spins",
  "existing tests use spin = 0 only (spin0 = 0 only for the JAX and Torch generators)",
  [F], [("spin normalisation", F + ":spin_normalization, spin_normalization_vectorised, spin_normalization_jax")], ["values of the returned filter arrays"])

TR = ("For every supported configuration and every band-limited signal, analysis returns at each scale the samples of the directional convolution of the signal with that scale's wavelet (and with the scaling function), and synthesis maps any band-limited coefficient set to the samples of the inverse formula. ")
QT = "all signals and coefficient sets; all L, N, J_min, lam, spin, reality, samplings mw, mwss, dh, gl"
WY = "the tests run L = 8 (16), N in {2, 3}, J_min = 2, spin 0 and random signals: no spin signals, no other band-limits, parities, dilations or lowest scales, and mostly only the round trip, which a compensating pair of errors passes"
p("C04", "NumPy transforms compute the directional wavelet transform",
  TR + "This is what the looped and the vectorised base transforms return, with multiresolution on and off, with spin-lowered (spin0) wavelets, and with the scattering option returning the modulus of the wavelet coefficients.",
  ["inputs", "configurations"], QT + ", multiresolution on/off, spin0, scattering", WY, [BA, SA, F],
  [("analysis/synthesis", BA + ":analysis, synthesis, analysis_looped, synthesis_looped")], ["arrays returned by the base transforms"])
p("C05", "JAX transforms compute the directional wavelet transform", TR + "This is what the JAX transforms return, compiled or not, with or without supplied Wigner precomputes.",
  ["inputs", "configurations"], QT, WY, [JX, SA, F], [("analysis/synthesis", JX + ":analysis, synthesis, _flmn_wav_j, _shape...")], ["arrays returned by the JAX transforms"])
p("C06", "SSHT C backend transforms compute the directional wavelet transform", TR + "This is what the SSHT-backed transforms return.",
  ["inputs", "configurations"], QT, WY, [CC, SA, F], [("analysis/synthesis", CC + ":analysis, synthesis")], ["arrays returned by the C-backed transforms"])
p("C07", "JAX full-precompute transforms compute the directional wavelet transform", TR + "This is what the JAX transforms with full precomputed kernels return, given the kernels generated for the same configuration.",
  ["inputs", "configurations"], QT, WY, [PJ, CO, SA, F], [("analysis/synthesis", PJ + ":analysis, synthesis"), ("kernels", CO + ":generate_full_precomputes")], ["arrays returned by the precompute JAX transforms"])
p("C08", "Torch full-precompute transforms compute the directional wavelet transform", TR + "This is what the Torch transforms with full precomputed kernels return, given the kernels generated for the same configuration.",
  ["inputs", "configurations"], QT, WY, [PT, CO, SA, F], [("analysis/synthesis", PT + ":analysis, synthesis"), ("kernels", CO + ":generate_full_precomputes")], ["tensors returned by the precompute Torch transforms"])
p("C09", "Analysis followed by synthesis reproduces the signal exactly",
  "In every implementation and every supported configuration, synthesis applied to the analysis of a band-limited signal returns that signal to numerical precision, and repeating the round trip changes neither the signal nor its coefficients.",
  ["inputs", "configurations", "histories"], "all band-limited signals, all six implementations, " + QT.split("; ")[1],
  WY, [BA, JX, CC, PJ, PT, F], [("admissible filters and exact sampling", F), ("round trip", "analysis/synthesis of every transform module")], ["the reconstructed signal"])
p("C10", "Wavelet transform conserves energy per multipole",
  "For every spin-0 or spin signal and every implementation, the energies of the wavelet and scaling coefficient maps (on SO(3) and on the sphere) add up to the energy of the signal, multipole by multipole and in total, and every coefficient map is itself band-limited at the scale's declared band-limits.",
  ["inputs", "configurations"], "all band-limited signals; all L, N, J_min, lam, spin, samplings, implementations",
  "no existing test looks at energies; round-trip tests accept any pair of mutually inverse but badly normalised transforms",
  [F, BA, JX, CC, PJ, PT], [("tight frame and coefficient normalisation", F + ", psi*(2l+1)/(8 pi^2) factors in every transform module")], ["energies of returned coefficient maps"])
p("C11", "Implementations and optional arguments are interchangeable",
  "Coefficients produced by any implementation can be synthesised by any other with the same result, and the result of a transform does not depend on which generator made the filters, on filters or (recursive JAX) Wigner precomputes being passed or left to default, on lam being an int or a float, on a real signal being given with a real or complex type, on NumPy or JAX arrays or their memory layout, on sizes being Python or NumPy integers, or on coefficients being passed as a list or tuple.",
  ["inputs", "configurations"], "all ordered pairs of implementations x all combinations of optional arguments x configurations",
  "the tests always pass vectorised filters and float lam, and compare each implementation with the base one only on its own coefficients",
  [BA, JX, CC, PJ, PT, CO, F], [("defaults", "filters=None/precomps=None branches of every transform module"), ("shared layout", SA + ":flmn_wav_j, construct_*")], ["arrays returned by every transform"])
p("C12", "Harmonic-space analysis equals analysis restricted to the requested scales",
  "Analysis started from harmonic coefficients returns exactly the wavelet coefficients of scales J_min..J_max of the corresponding signal, for every truncation J_max (default: all scales), in every implementation that offers it, with kernels that include or exclude the spherical ones.",
  ["inputs", "configurations"], "all signals, all J_min <= J_max <= J, all samplings, reality settings, four implementations, both kernel layouts",
  "the tests call it with J_max at its default (or one value), L = 8, spin 0",
  [JX, CC, PJ, PT, CO], [("scale loop and kernel shift", "flm_to_analysis of the four modules"), ("kernel list layout", CO + ":generate_full_precomputes(nospherical), generate_wigner_precomputes")], ["returned coefficient list"])
p("C13", "Size helpers agree with the transforms and always capture the filters",
  "For every configuration the number of scales, the band-limits per scale, the directional band-limits and the sample shapes reported by the size helpers equal those of the arrays the transforms produce and accept; the multiresolution limits of each scale (lower and upper harmonic limit, parity-preserving number of orientations) contain the whole support of that scale's filter; the allocation helpers (scattering layout included) return zero arrays of exactly these shapes and the shape check accepts exactly these shapes.",
  ["configurations"], "all L, N, J_min, lam (integer and fractional), multiresolution on/off, every sampling including HEALPix",
  "the tests sample a few L at lam in {2, 3}; rounding at exact or near powers of lam and odd parities is never reached",
  [SA, BA, JX, F], [("size formulas", SA + ":j_max, wav_j_bandlimit, scal_bandlimit, L0_j, LN_j, n_wav_scales, f_scal, f_wav_j, construct_*, wavelet_shape_check")], ["return values of the helpers", "shapes of transform outputs"])
p("C14", "The reality option never changes the result",
  "For a real signal, analysis and synthesis with reality on or off return the same (real) coefficients and the same signal in every implementation; coefficients computed with one setting can be synthesised with the other.",
  ["inputs", "configurations"], "all real band-limited signals and real coefficient maps; all L, N, J_min, lam, samplings, implementations, multiresolution on/off",
  "the tests compare each reality setting with itself at L = 8, N in {2, 3}",
  [BA, JX, CC, PJ, PT], [("half-space evaluation for n >= 0", "reality branches of every transform module")], ["arrays returned with either setting"])
p("C15", "Gradients are the exact adjoints of the transforms",
  "For every implementation advertised as differentiable (JAX, SSHT C, JAX and Torch full precompute), reverse-mode differentiation of analysis, synthesis and harmonic-space analysis returns, for every direction of input and output, the derivative of the linear map that the function itself computes, also when composed. (SSHT C: complex signals on the mw, mwss and gl samplings; its adjoints for real signals and dh are approximate upstream.)",
  ["inputs", "configurations"], "every basis direction of the input and a generic cotangent in every output, for all L, N, J_min, samplings, reality settings in the bounds",
  "the tests check gradients on one random direction (check_grads) at L = 8, or not at all (Torch)",
  [JX, CC, PJ, PT], [("differentiable building blocks", "analysis/synthesis/flm_to_analysis of the four modules")], ["vector-Jacobian products"])
p("C16", "Results depend only on the arguments: no call history matters",
  "Every public function returns the same result whatever calls were made before it in the process, in whatever order and with whatever other configurations; it modifies none of its arguments; and modifying a returned array or an argument afterwards does not affect later results. Reusing filters and precomputes for many calls is equivalent to regenerating them.",
  ["histories"], "all sequences of calls (generators, size helpers, transforms of different configurations, mutation of results and arguments) up to the depth bound",
  "each test makes one or two calls in its own fixed order; interference needs a particular sequence of configurations",
  [BA, JX, CC, PJ, PT, CO, F, SA], [("no shared mutable state; jit keyed on all static arguments", "whole package")], ["results after a history", "arguments after a call"])
p("C17", "Concurrent calls from several threads do not interfere",
  "Calls of filter generators, precompute generators, size helpers and transforms from different threads of one process return what they return when run alone, for every interleaving.",
  ["schedules"], "all interleavings of two threads at source-line granularity up to the preemption bound, over pairs of operations with equal and different configurations",
  "the test suite is single-threaded",
  [BA, CO, F, SA, PT, PJ], [("no shared mutable state", "whole package")], ["results of each thread"])
p("C18", "Unsupported or inconsistent requests are rejected, never answered wrongly",
  "Every filter generator, and every transform left to build its own filters, raises an error for a lowest scale J_min that is negative or not below the highest scale J and accepts every other one; the base, JAX and SSHT transforms, the precompute generators and the sample-shape helpers raise for an unknown sampling scheme (and for HEALPix without nside); the full-precompute transforms raise when their kernels are missing; SSHT analysis and synthesis raise for HEALPix; and the base synthesis functions (and the shape check they use) raise for wavelet or scaling coefficients whose number of scales or array shapes do not match the configuration and resolution requested.",
  ["inputs", "configurations"], "all functions x all invalid J_min, unknown samplings, missing kernels, single-axis perturbations of every coefficient array, missing/extra/swapped scales, and the boundary-valid neighbours",
  "the tests exercise one or two invalid J_min for the filters and no wrong coefficient shape or sampling",
  [F, SA, BA, JX, CC, PJ, PT, CO], [("argument checks", F + " J_min checks; " + SA + ":wavelet_shape_check; precomps is None checks")], ["exceptions raised"])
p("C19", "Rotating the signal rotates its wavelet coefficients",
  "In every implementation the analysis of a rotated signal is the rotated analysis of the signal, scale by scale, for every rotation of the sphere and every signal spin.",
  ["inputs", "configurations"], "all signals x rotations (a longitude step, a flip, generic) x configurations x implementations",
  "no test rotates a signal", [BA, JX, CC, PJ, PT], [("directional convolution", "analysis of every transform module")], ["arrays returned by analysis"])
p("C20", "HEALPix transforms compute the directional wavelet transform on HEALPix rings",
  "With HEALPix sampling the base transforms (any spin), the JAX and the Torch full-precompute transforms (spin 0, nside >= 2) return at every scale the samples of the directional convolution of the signal with that scale's wavelet at the HEALPix pixels and orientations, starting from the harmonic coefficients that the equal-weight HEALPix quadrature yields, and synthesis applies the inverse formula to the quadrature coefficients of its input maps; the recursive JAX transforms apply the same harmonic-space maps between s2fft's own HEALPix transforms. All scale band-limits are at least 2 nside.",
  ["inputs", "configurations"], "all maps; all nside >= 1 (base) or >= 2, L, N, J_min, lam admissible for it, reality on/off, multiresolution on/off, every J_max of the harmonic-space analysis",
  "no test of s2wav uses HEALPix sampling", [BA, JX, PJ, PT, CO, SA], [("HEALPix branches", "nside arguments of every transform and generator")], ["arrays returned with sampling='healpix'"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for x in P:
            fh.write(json.dumps(x) + "\n")
