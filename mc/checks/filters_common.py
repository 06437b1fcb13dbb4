"""Generators of wavelet filters under one calling convention."""
import numpy as np

from backends import to_np

AXI = ("axi_loop", "axi_vec", "axi_jax")
DIR = ("dir_loop", "dir_loop_torch", "dir_vec", "dir_vec_torch", "dir_jax")


def generate(m, gen, L, N, J_min, lam, spin=0, spin0=0):
    F = m.filters
    if gen == "axi_loop":
        r = F.filters_axisym(L, J_min, lam)
    elif gen == "axi_vec":
        r = F.filters_axisym_vectorised(L, J_min, lam)
    elif gen == "axi_jax":
        r = F.filters_axisym_jax(L, J_min, lam)
    elif gen == "dir_loop":
        r = F.filters_directional(L, N, J_min, lam, spin, spin0)
    elif gen == "dir_loop_torch":
        r = F.filters_directional(L, N, J_min, lam, spin, spin0, True)
    elif gen == "dir_vec":
        r = F.filters_directional_vectorised(L, N, J_min, lam, spin, spin0)
    elif gen == "dir_vec_torch":
        r = F.filters_directional_vectorised(L, N, J_min, lam, spin, spin0, True)
    elif gen == "dir_jax":
        r = F.filters_directional_jax(L, N, J_min, lam, spin, spin0)
    else:
        raise KeyError(gen)
    if gen.endswith("torch"):
        import torch

        assert all(isinstance(x, torch.Tensor) for x in r), "torch filters requested"
    psi, phi = r
    return to_np(psi), to_np(phi)
