"""Reference definitions: symmetry-adapted tensors."""
from itertools import permutations

import numpy as np

from spgrep.irreps import enumerate_unitary_irreps, is_equivalent_irrep
from spgrep.representation import get_character, get_direct_product, project_to_irrep
from spgrep.utils import grassmann_distance


def get_symmetry_adapted_tensors(rep, rotations, rank, real=False, atol=1e-8):
    """Totally symmetric parts of the rank-fold tensor product of rep."""
    n = rep.shape[0]
    irreps, _ = enumerate_unitary_irreps(rotations, real=real, atol=atol)
    vectors = []
    for irrep in irreps:
        for basis in project_to_irrep(rep, irrep, atol=atol):
            vectors.append((basis, irrep))

    level = vectors[:]
    for _ in range(rank - 1):
        following = []
        for t_basis, t_irrep in level:
            for v_basis, v_irrep in vectors:
                product_rep = get_direct_product(t_irrep, v_irrep)
                for irrep in irreps:
                    for coeff in project_to_irrep(product_rep, irrep, atol=atol):
                        c = coeff.reshape(irrep.shape[1], t_irrep.shape[1], v_irrep.shape[1])
                        basis = np.einsum("ijk,j...,ka->i...a", c, t_basis, v_basis)
                        following.append((basis, irrep))
        level = following

    tensors = []
    for basis, irrep in level:
        if irrep.shape[1] > 1:
            continue
        if is_equivalent_irrep(get_character(irrep), np.ones((n,))):
            tensors.append(basis[0, ...])
    return tensors


def apply_intrinsic_symmetry(tensors, atol=1e-6):
    """Linearly independent totally symmetrised (normalised) tensors."""
    found = []
    for tensor in tensors:
        rank = len(tensor.shape)
        total = np.zeros_like(tensor)
        unit = tensor / np.linalg.norm(tensor)
        for p in permutations(range(rank)):
            total = total + np.transpose(unit, axes=p)
        if np.allclose(total, 0, atol=atol):
            continue
        total = total / np.linalg.norm(total)
        flat = total.reshape(1, -1)
        if len(found) > 0 and grassmann_distance(flat, np.concatenate(found, axis=0)) < 0.5:
            continue
        found.append(flat)
    return [b.reshape(tensors[0].shape) for b in found]
