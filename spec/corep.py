"""Reference definitions: co-representations of magnetic little groups."""
import numpy as np

from spgrep.group import (
    decompose_by_maximal_space_subgroup,
    get_cayley_table,
    get_factor_system_from_little_group,
    get_inverse_index,
)
from spgrep.irreps import enumerate_unitary_irreps, is_equivalent_irrep
from spgrep.representation import get_character, get_intertwiner
from spgrep.spinor import enumerate_spinor_small_representations, get_spinor_unitary_rotation


def enumerate_spinor_small_corepresentations(
    lattice,
    little_rotations,
    little_translations,
    little_time_reversals,
    kpoint,
    method="Neto",
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """Co-representations of M = D + a0 D from the irreps of the unitary subgroup D (Wigner's three cases)."""
    n = len(little_rotations)
    if np.all(little_time_reversals == 0):
        irreps, z, u = enumerate_spinor_small_representations(
            lattice,
            little_rotations,
            little_translations,
            kpoint,
            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        return irreps, [], z, u, np.zeros((n,), dtype=bool)

    unitary, _, a0 = decompose_by_maximal_space_subgroup(little_rotations, little_translations, little_time_reversals)
    where = {}
    for i, g in enumerate(unitary):
        where[g] = i
    half = len(unitary)

    z, su2, anti = get_corep_spinor_factor_system(lattice, little_rotations, little_time_reversals)
    mu = z * get_factor_system_from_little_group(
        little_rotations, little_translations, kpoint, little_time_reversals
    )
    irreps, _ = enumerate_unitary_irreps(
        little_rotations[unitary],
        mu[unitary][:, unitary],
        real=False,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    table = get_cayley_table(little_rotations, little_time_reversals)

    # D~(u) = mu(u, a0) / mu(a0, a0^-1 u a0) D(a0^-1 u a0)^*
    a0_inv = get_inverse_index(table, a0)
    partners = []
    for d in irreps:
        moved = table[a0_inv, table[unitary, a0]]
        rows = [where[g] for g in moved]
        partners.append(
            mu[unitary, a0][:, None, None] / mu[a0, moved][:, None, None] * np.conj(d[rows])
        )

    # indicator = 1/|D| sum_u mu(a0 u, a0 u) chi((a0 u)^2)
    a0u = table[a0, unitary]
    factors = [mu[g, g] for g in a0u]
    squares = [where[table[g, g]] for g in a0u]
    chi = [get_character(d) for d in irreps]
    taken = [False for _ in irreps]
    triples = []
    indicators = []
    for i in range(len(irreps)):
        if taken[i]:
            continue
        taken[i] = True
        total = np.rint(np.real(np.sum(factors * chi[i][squares]))).astype(int)
        assert total % half == 0
        indicator = total // half
        triples.append((indicator, irreps[i], partners[i]))
        indicators.append(indicator)
        if indicator != 0:
            continue
        partner_character = get_character(partners[i])
        found = False
        for j in range(len(irreps)):
            if taken[j]:
                continue
            if is_equivalent_irrep(partner_character, chi[j]):
                found = True
                taken[j] = True
                break
        assert found

    phases = np.exp(-2j * np.pi * (little_translations @ kpoint))
    coreps = []
    for indicator, d, partner in triples:
        m = d.shape[1]
        back = np.conj(mu[a0, unitary])[:, None, None]
        if indicator == 1:
            U = get_intertwiner(d, partner, atol, max_num_random_generations)
            c = np.zeros((n, m, m), dtype=complex)
            c[unitary] = d
            c[a0u] = back * U[None, :, :] @ np.conj(d)
        elif indicator == -1:
            U = get_intertwiner(d, partner, atol, max_num_random_generations)
            c = np.zeros((n, 2 * m, 2 * m), dtype=complex)
            c[unitary, :m, :m] = d
            c[unitary, m:, m:] = d
            c0 = np.zeros((2 * m, 2 * m), dtype=complex)
            c0[:m, m:] = -U
            c0[m:, :m] = U
            c[a0u] = back * c0[None, :, :] @ np.conj(c[unitary])
        elif indicator == 0:
            c = np.zeros((n, 2 * m, 2 * m), dtype=complex)
            c[unitary, :m, :m] = d
            c[unitary, m:, m:] = partner
            c0 = np.zeros((2 * m, 2 * m), dtype=complex)
            c0[:m, m:] = mu[a0, a0] * d[where[table[a0, a0]]]
            c0[m:, :m] = np.eye(m, dtype=complex)
            c[a0u] = back * c0[None, :, :] @ np.conj(c[unitary])
        else:
            raise ValueError("impossible")
        coreps.append(c * phases[:, None, None])
    return coreps, indicators, z, su2, anti


def get_corep_spinor_factor_system(lattice, rotations, time_reversals):
    """U_i (U_j or its conjugate) = z(i, j) U_ij; time reversal is -i sigma_y K."""
    n = len(rotations)
    T = np.array([[0, -1], [1, 0]], dtype=complex)
    u = np.zeros((n, 2, 2), dtype=complex)
    anti = np.zeros((n,), dtype=bool)
    for i in range(n):
        s = get_spinor_unitary_rotation(lattice, rotations[i])
        if time_reversals[i] == 1:
            u[i] = s @ T
            anti[i] = True
        else:
            u[i] = s
            anti[i] = False
    table = get_cayley_table(rotations, time_reversals)
    z = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            product = u[i] @ np.conj(u[j]) if anti[i] else u[i] @ u[j]
            overlap = np.trace(product @ u[table[i, j]].conj().T)
            z[i, j] = 1 if np.real(overlap) > 0 else -1
    return z, u, anti
