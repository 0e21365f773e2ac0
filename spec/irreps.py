"""Reference definitions: (projective) irreducible representations of finite groups."""
from warnings import warn

import numpy as np

from spgrep.group import (
    get_cayley_table,
    get_factor_system_from_little_group,
    get_identity_index,
    get_inverse_index,
    get_order,
)
from spgrep.pointgroup import get_pointgroup_chain_generators
from spgrep.representation import (
    frobenius_schur_indicator,
    get_character,
    get_intertwiner,
    get_projective_regular_representation,
)
from spgrep.utils import nroot


def _conjugate_classes(irreps):
    """Pair every irrep with the first unpaired later one equivalent to its complex conjugate (else with itself)."""
    chi = [get_character(d) for d in irreps]
    taken = [False for _ in irreps]
    pairs = []
    for i in range(len(irreps)):
        if taken[i]:
            continue
        taken[i] = True
        alone = True
        for j in range(len(irreps)):
            if taken[j]:
                continue
            if is_equivalent_irrep(np.conj(chi[i]), chi[j]):
                pairs.append((i, j))
                taken[j] = True
                alone = False
                break
        if alone:
            pairs.append((i, i))
    return pairs


def enumerate_small_representations(
    little_rotations,
    little_translations,
    kpoint,
    real=False,
    method="Neto",
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """Projective irreps of the little co-group times exp(-2 pi i k . w)."""
    mu = get_factor_system_from_little_group(little_rotations, little_translations, kpoint)
    cogroup, _ = enumerate_unitary_irreps(
        little_rotations,
        mu,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    phases = np.exp(-2j * np.pi * (little_translations @ kpoint))
    irreps = [d * phases[:, None, None] for d in cogroup]

    # the indicator over the translation group vanishes unless 2k is a reciprocal lattice vector
    k2 = kpoint + kpoint
    self_conjugate = np.allclose(k2 - np.rint(k2), 0)
    if not real:
        return irreps, [frobenius_schur_indicator(d) if self_conjugate else 0 for d in irreps]

    out = []
    indicators = []
    for i, _ in _conjugate_classes(irreps):
        indicator = 0
        if self_conjugate:
            indicator = frobenius_schur_indicator(irreps[i])
        pir = get_physically_irrep(
            irreps[i], indicator, atol=atol, max_num_random_generations=max_num_random_generations
        )
        out.append(purify_real_irrep_value(pir, atol=atol))
        indicators.append(indicator)
    return out, indicators


def enumerate_unitary_irreps(
    rotations, factor_system=None, real=False, method="Neto", rtol=1e-5, atol=1e-8, max_num_random_generations=4
):
    """All unitary irreps for a factor system, along a solvable chain or from the regular representation."""
    n = rotations.shape[0]
    if factor_system is None:
        factor_system = np.ones((n, n), dtype=complex)

    if method == "Neto":
        irreps = enumerate_unitary_irreps_from_solvable_group_chain(
            get_cayley_table(rotations),
            factor_system,
            get_pointgroup_chain_generators(rotations),
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
    elif method == "random":
        irreps = enumerate_unitary_irreps_from_regular_representation(
            get_projective_regular_representation(rotations, factor_system),
            rtol=rtol,
            max_num_random_generations=max_num_random_generations,
        )
    else:
        raise ValueError("unknown method")

    for d in irreps:
        d = purify_irrep_value(d, atol=atol)

    # the indicator vanishes identically for factor systems that are not real
    real_factors = np.allclose(np.imag(factor_system), 0)
    if not real:
        return irreps, [frobenius_schur_indicator(d) if real_factors else 0 for d in irreps]

    out = []
    indicators = []
    for i, _ in _conjugate_classes(irreps):
        indicator = 0
        if real_factors:
            indicator = frobenius_schur_indicator(irreps[i])
        pir = get_physically_irrep(
            irreps[i], indicator, atol=atol, max_num_random_generations=max_num_random_generations
        )
        out.append(purify_real_irrep_value(pir, atol=atol))
        indicators.append(indicator)
    return out, indicators


def enumerate_unitary_irreps_from_regular_representation(reg, rtol=1e-5, max_num_random_generations=4):
    """Diagonalise H = sum_g reg(g) X reg(g)^dagger; complete iff sum d^2 = |G|."""
    n = reg.shape[0]
    value = np.zeros((n, n), dtype=complex)
    column = np.zeros((n, n), dtype=int)
    for g in range(n):
        for i in range(n):
            j = np.nonzero(reg[g, i, :])[0]
            value[g, i] = reg[g, i, j]
            column[g, i] = j

    rng = np.random.default_rng(seed=0)
    for _ in range(max_num_random_generations):
        x = rng.random((n, n)) + 1j * rng.random((n, n))
        x = x + x.conj().T
        rows, cols = np.meshgrid(range(n), range(n))
        moved = np.zeros((n, n, n), dtype=complex)
        for g in range(n):
            moved[g] = x[column[g, rows], column[g, cols]]
        h = np.sum(value[:, :, None] * moved * value[:, None, :].conj(), axis=0)
        irreps = _get_irreps_from_matrix(reg, h, rtol=rtol)
        if np.sum([d.shape[1] ** 2 for d in irreps]) == n:
            return irreps
    warn("incomplete")
    return []


def decompose_representation(representation, rtol=1e-5, max_num_random_generations=4):
    """Diagonalise H = sum_g D(g) X D(g)^dagger; complete iff sum of dimensions = dim D."""
    dim = representation.shape[1]
    rng = np.random.default_rng(seed=0)
    for _ in range(max_num_random_generations):
        x = rng.random((dim, dim)) + 1j * rng.random((dim, dim))
        x = x + x.conj().T
        h = np.einsum("mik,kl,mjl->ij", representation, x, representation.conj())
        irreps = _get_irreps_from_matrix(representation, h, rtol=rtol)
        if np.sum([d.shape[1] for d in irreps]) == dim:
            return irreps
    warn("incomplete")
    return []


def _get_irreps_from_matrix(reg, matrix, rtol=1e-5):
    """Inequivalent irreducible blocks of reg on the eigenspaces of a commuting Hermitian matrix."""
    values, vectors = np.linalg.eigh(matrix)
    spaces = []
    for value, vector in zip(values, vectors.T):
        fresh = True
        for s in range(len(spaces)):
            if np.isclose(value, spaces[s][0], rtol=rtol):
                spaces[s][1].append(vector)
                fresh = False
                break
        if fresh:
            spaces.append((value, [vector]))

    n = reg.shape[0]
    irreps = []
    characters = []
    for _, columns in spaces:
        q = np.linalg.qr(np.transpose(columns))[0]
        chi = np.einsum("li,klm,mi->k", q.conj(), reg, q)
        if not is_equivalent_irrep(chi, chi):
            continue
        known = False
        for other in characters:
            if np.isclose(np.rint(np.sum(chi.conj() * other)), n, rtol=rtol):
                known = True
                break
        if known:
            continue
        irreps.append(np.einsum("li,klm,mj->kij", q.conj(), reg, q))
        characters.append(chi)

    order = sorted(range(len(irreps)), key=lambda a: (irreps[a].shape[1], -np.sum(characters[a])))
    return [irreps[a] for a in order]


def enumerate_unitary_irreps_from_solvable_group_chain(
    table, factor_system, solvable_chain_generators, atol=1e-8, max_num_random_generations=4
):
    """Extend irreps of N to G = N + rN + ... + r^(p-1)N step by step (self-conjugate: p extensions; else induce)."""
    mu = factor_system
    e = get_identity_index(table)
    group = [e]
    irreps = [np.ones((1, 1, 1), dtype=complex)]
    for r in solvable_chain_generators[::-1]:
        p = get_order(table, r)
        r_inv = get_inverse_index(table, r)
        powers = [e]
        inv_powers = [e]
        for m in range(1, p):
            powers.append(table[powers[m - 1], r])
            inv_powers.append(table[inv_powers[m - 1], r_inv])

        normal = group[:]
        group = []
        for m in range(p):
            group.extend([table[powers[m], s] for s in normal])
        group = sorted(list(set(group)))
        pos_n = {}
        for i, s in enumerate(normal):
            pos_n[s] = i
        pos_g = {}
        for i, g in enumerate(group):
            pos_g[g] = i

        extended = []
        for d in irreps:
            dim = d.shape[1]
            # d^(j)(s) = mu(s, r^j) / mu(r^j, r^-j s r^j) d(r^-j s r^j)
            conjugates = []
            for j in range(p):
                rows = []
                for s in normal:
                    sj = table[inv_powers[j], table[s, powers[j]]]
                    rows.append(mu[s, powers[j]] / mu[powers[j], sj] * d[pos_n[sj]])
                conjugates.append(np.array(rows))
            chi = [get_character(x) for x in conjugates]
            if is_equivalent_irrep(chi[0], chi[1]):
                u = get_intertwiner(
                    conjugates[0], conjugates[1], atol=atol, max_num_random_generations=max_num_random_generations
                )
                power = u.copy()
                for _ in range(p - 1):
                    power = u @ power
                u = u / power[0, 0] ** (1 / p)
                omega = 1 / nroot(np.prod([mu[r, powers[m]] for m in range(1, p)]), p)
                for q in range(p):
                    delta = u / (omega * np.exp(2j * np.pi * q / p))
                    deltas = [np.eye(u.shape[0], dtype=complex)]
                    for m in range(1, p):
                        deltas.append(delta @ deltas[m - 1] / mu[r, powers[m - 1]])
                    new = np.zeros((len(group), dim, dim), dtype=complex)
                    for m in range(p):
                        for s in normal:
                            new[pos_g[table[powers[m], s]]] = deltas[m] @ d[pos_n[s]] / mu[powers[m], s]
                    extended.append(new)
            else:
                new = np.zeros((len(group), dim * p, dim * p), dtype=complex)
                for m in range(p):
                    for s in normal:
                        g = table[powers[m], s]
                        for j in range(p):
                            i = (j + m) % p
                            sj = table[inv_powers[j], table[s, powers[j]]]
                            new[pos_g[g], i * dim : (i + 1) * dim, j * dim : (j + 1) * dim] = (
                                mu[g, powers[j]] / mu[powers[i], sj] * d[pos_n[sj]]
                            )
                extended.append(new)

        irreps = []
        seen = []
        for d in extended:
            chi_d = get_character(d)
            if any([is_equivalent_irrep(chi_d, c) for c in seen]):
                continue
            irreps.append(d)
            seen.append(chi_d)

    if group != list(range(table.shape[0])):
        warn("incomplete")
        return []
    return irreps


def get_physically_irrep(irrep, indicator, atol=1e-5, max_num_random_generations=4):
    """Indicator 1: D is equivalent to a real one, T^dagger D T with T T^T = U; otherwise the real form of D + D*."""
    n = irrep.shape[0]
    d = irrep.shape[1]
    if indicator == 1:
        u = get_intertwiner(
            irrep, irrep.conj(), atol=atol, max_num_random_generations=max_num_random_generations
        )
        s = np.linalg.eigh(np.cos(1) * np.real(u) + np.sin(1) * np.imag(u))[1]
        eigenvalues = np.diag(s.T @ u @ s)
        t = s @ np.diag([nroot(x, 2) for x in eigenvalues]) @ s.T
        pir = np.real(np.einsum("il,klm,mj->kij", t.conj(), irrep, t))
    elif indicator == -1 or indicator == 0:
        pir = np.empty((n, 2 * d, 2 * d), dtype=float)
        pir[:, :d, :d] = irrep.real
        pir[:, :d, d:] = irrep.imag
        pir[:, d:, :d] = -irrep.imag
        pir[:, d:, d:] = irrep.real
    return pir


def is_equivalent_irrep(character1, character2):
    """<chi_1, chi_2> = |G|."""
    return np.rint(np.sum(character1.conj() * character2)) == character1.shape[0]


def purify_irrep_value(irrep, atol=1e-8):
    """Snap entries within tolerance of zero or a sixth/fourth root of unity (in place)."""
    for v in [0, 1, np.exp(1j * np.pi / 3), 1j, np.exp(2j * np.pi / 3), -1, np.exp(4j * np.pi / 3), -1j, np.exp(5j * np.pi / 3)]:
        irrep[np.abs(irrep - v) < atol] = v
    return irrep


def purify_real_irrep_value(real_irrep, atol=1e-8):
    """Snap entries within tolerance of 0, +-1/2, +-sqrt(3)/2, +-1 (in place)."""
    for v in [0, 1, 1 / 2, np.sqrt(3) / 2, -1 / 2, -np.sqrt(3) / 2, -1]:
        real_irrep[np.abs(real_irrep - v) < atol] = v
    return real_irrep
