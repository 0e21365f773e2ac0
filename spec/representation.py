"""Reference definitions: representation theory of finite groups."""
from warnings import warn

import numpy as np

from spgrep.group import get_cayley_table
from spgrep.utils import grassmann_distance, ndarray2d_to_integer_tuple


def get_regular_representation(rotations):
    """reg[g] e_h = e_{gh}."""
    n = len(rotations)
    table = get_cayley_table(rotations)
    reg = np.zeros((n, n, n), dtype=int)
    for g in range(n):
        for h in range(n):
            reg[g, table[g, h], h] = 1
    return reg


def get_projective_regular_representation(rotations, factor_system):
    """reg[g] e_h = mu(g, h) e_{gh}."""
    n = len(rotations)
    table = get_cayley_table(rotations)
    reg = np.zeros((n, n, n), dtype=complex)
    for g in range(n):
        for h in range(n):
            reg[g, table[g, h], h] = factor_system[g, h]
    return reg


def get_intertwiner(rep1, rep2, atol=1e-8, max_num_random_generations=4):
    """sum_g rep1(g) X rep2(g)^dagger for a (seeded) random X, scaled to unit determinant."""
    assert rep1.shape == rep2.shape
    d = rep1.shape[1]
    rng = np.random.default_rng(0)
    for _ in range(max_num_random_generations):
        seed_matrix = rng.random((d, d)) + 1j * rng.random((d, d))
        u = np.sum(rep1 @ seed_matrix @ np.transpose(rep2.conj(), (0, 2, 1)), axis=0)
        if np.allclose(u, 0, atol=atol):
            continue
        return u / np.linalg.det(u) ** (1 / d)
    warn("no intertwiner")
    return np.zeros((d, d))


def get_character(representation):
    """Traces."""
    return np.trace(representation, axis1=1, axis2=2).astype(complex)


def project_to_irrep(representation, irrep, atol=1e-6, max_num_trials=10):
    """Bases transforming as irrep: P_{nj} = d/|G| sum_g conj(irrep(g))_{ij} rep(g)_{. n}."""
    order = irrep.shape[0]
    d = irrep.shape[1]
    dim = representation.shape[1]
    if representation.shape != (order, dim, dim) or irrep.shape != (order, d, d):
        raise ValueError("inconsistent dimensions")

    inner = np.sum(get_character(irrep).conj() * get_character(representation))
    if not np.isclose(inner, np.rint(inner), atol=atol):
        warn("not an integer")
    multiplicity = np.rint(np.real(np.rint(inner) / order)).astype(int)
    if multiplicity == 0:
        return []

    def attempt(tol):
        found = []
        number = 0
        for n in range(dim):
            for j in range(d):
                b = d / order * np.einsum("ki,km->im", irrep[:, :, j].conj(), representation[:, :, n])
                if np.allclose(b, 0, atol=tol):
                    continue
                b = b / np.linalg.norm(b, axis=1)[:, None]
                if len(found) > 0 and grassmann_distance(b, np.concatenate(np.array(found), axis=0)) < 0.5:
                    continue
                found.append(b)
                number += 1
        return found, number

    lower = 1e-10
    upper = 1e-2
    tol = np.clip(atol, lower, upper)
    for _ in range(max_num_trials):
        basis, count = attempt(tol)
        if count == multiplicity:
            break
        if count < multiplicity:
            tol = np.sqrt(lower * tol)
            warn("tighten")
        else:
            tol = np.sqrt(upper * tol)
            warn("loosen")

    if count < multiplicity:
        warn("too few")
    elif count > multiplicity:
        warn("too many")
    return basis


def is_unitary(representation):
    """D D^dagger = 1."""
    d = representation.shape[1]
    return all(np.allclose(m @ m.conj().T, np.eye(d)) for m in representation)


def is_representation(rep, table, factor_system=None, rtol=1e-5, atol=1e-8):
    """D(g_i) D(g_j) = mu(g_i, g_j) D(g_i g_j)."""
    n = len(rep)
    if factor_system is None:
        factor_system = np.ones((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            if not np.allclose(rep[i] @ rep[j], factor_system[i, j] * rep[table[i, j]], rtol=rtol, atol=atol):
                return False
    return True


def frobenius_schur_indicator(irrep):
    """1/|G| sum_g tr D(g)^2, in {1, 0, -1} for irreps."""
    n = irrep.shape[0]
    value = int(np.rint(np.real(np.einsum("kij,kji->", irrep, irrep) / n)))
    if value > 1:
        raise ValueError("reducible")
    return value


def check_spacegroup_representation(
    little_rotations, little_translations, kpoint, rep, spinor_factor_system=None, rtol=1e-5
):
    """D(g_1) D(g_2) = z(R_1, R_2) exp(-2 pi i k . t) D(g_12) where g_1 g_2 = (E, t) g_12."""
    n = len(little_rotations)
    if spinor_factor_system is None:
        spinor_factor_system = np.ones((n, n), dtype=complex)
    keys = [ndarray2d_to_integer_tuple(r) for r in little_rotations]
    for i in range(n):
        for j in range(n):
            r12 = little_rotations[i] @ little_rotations[j]
            t12 = little_translations[i] + little_rotations[i] @ little_translations[j]
            k = keys.index(ndarray2d_to_integer_tuple(r12))
            phase = np.exp(-2j * np.pi * (kpoint @ (t12 - little_translations[k])))
            if not np.allclose(spinor_factor_system[i, j] * phase * rep[k], rep[i] @ rep[j], rtol=rtol):
                return False
    return True


def get_direct_product(rep1, rep2):
    """Kronecker products."""
    n = rep1.shape[0]
    d1 = rep1.shape[1]
    d2 = rep2.shape[1]
    if rep1.shape != (n, d1, d1) or rep2.shape != (n, d2, d2):
        raise ValueError("inconsistent shapes")
    return np.einsum("kij,kab->kiajb", rep1, rep2).reshape(n, d1 * d2, d1 * d2)
