"""Reference definitions: SU(2) rotations and spinor factor systems."""
import numpy as np

from spgrep.group import get_cayley_table, get_factor_system_from_little_group
from spgrep.irreps import enumerate_unitary_irreps


def enumerate_spinor_small_representations(
    lattice,
    little_rotations,
    little_translations=None,
    kpoint=None,
    method="Neto",
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """Projective irreps for z * mu, times exp(-2 pi i k . w)."""
    n = len(little_rotations)
    if little_translations is None:
        little_translations = np.zeros((n, 3))
    if kpoint is None:
        kpoint = np.zeros(3)
    z, unitary = get_spinor_factor_system(lattice, little_rotations)
    mu = get_factor_system_from_little_group(little_rotations, little_translations, kpoint)
    cogroup, _ = enumerate_unitary_irreps(
        little_rotations,
        z * mu,
        real=False,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    phases = np.exp(-2j * np.pi * (little_translations @ kpoint))
    return [d * phases[:, None, None] for d in cogroup], z, unitary


def get_spinor_factor_system(lattice, rotations):
    """U_i U_j = z(i, j) U_ij with z = +-1."""
    n = len(rotations)
    u = np.zeros((n, 2, 2), dtype=complex)
    for i in range(n):
        u[i] = get_spinor_unitary_rotation(lattice, rotations[i])
    table = get_cayley_table(rotations)
    z = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            overlap = np.trace(u[i] @ u[j] @ u[table[i, j]].conj().T)
            z[i, j] = 1 if np.real(overlap) > 0 else -1
    return z, u


def get_spinor_unitary_rotation(lattice, rotation):
    """exp(-i theta n.sigma / 2) of the proper part, in Cartesian coordinates."""
    sign = 1 if np.linalg.det(rotation) > 0 else -1
    a = lattice.T
    theta, n = get_rotation_angle_and_axis(a @ (sign * rotation) @ np.linalg.inv(a))
    c = np.cos(theta / 2)
    s = np.sin(theta / 2)
    return np.array(
        [
            [c - 1j * s * n[2], s * (-1j * n[0] - n[1])],
            [s * (n[1] - 1j * n[0]), c + 1j * s * n[2]],
        ]
    )


def get_rotation_angle_and_axis(cart_rotation):
    """Angle in [0, pi] and axis; two-fold axes have a positive first non-zero component."""
    r = cart_rotation
    if np.allclose(r, np.eye(3)):
        return 0.0, np.array([0, 0, 1])
    c = (np.trace(r) - 1) / 2
    if np.isclose(c, -1):
        theta = np.pi
        values, vectors = np.linalg.eig(r)
        axis = None
        for i in range(3):
            if not np.isclose(values[i], 1):
                continue
            axis = np.real(vectors[:, i])
            axis = axis / np.linalg.norm(axis)
            for j in range(3):
                if not np.isclose(axis[j], 0):
                    if axis[j] < 0:
                        axis = -axis
                    break
    else:
        w = np.array([r[1, 2] - r[2, 1], r[2, 0] - r[0, 2], r[0, 1] - r[1, 0]])
        s = np.linalg.norm(w) / 2
        theta = np.arctan2(s, c)
        axis = -w / (2 * s)
    return theta, axis
