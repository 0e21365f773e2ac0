"""Reference definitions: finite (magnetic) group utilities."""
import numpy as np

from spgrep.utils import ndarray2d_to_integer_tuple


def get_cayley_table(rotations, time_reversals=None):
    """table[i, j] = k with g_i g_j = g_k; time reversal multiplies as a sign."""
    n = len(rotations)
    if time_reversals is None:
        time_reversals = np.zeros(n, dtype=int)
    elements = [(ndarray2d_to_integer_tuple(rotations[a]), time_reversals[a]) for a in range(n)]
    table = np.zeros((n, n), dtype=int)
    for i in range(n):
        for j in range(n):
            product = ndarray2d_to_integer_tuple(rotations[i] @ rotations[j])
            table[i, j] = elements.index((product, time_reversals[i] != time_reversals[j]))
    return table


def get_identity_index(table):
    """The element e with e g = g for every g."""
    n = len(table)
    for e in range(n):
        if all(table[e, g] == g for g in range(n)):
            return e
    raise ValueError("not a group")


def get_inverse_index(table, idx):
    """The element h with g h = e."""
    e = get_identity_index(table)
    for h in range(len(table)):
        if table[idx, h] == e:
            return h
    raise ValueError("not a group")


def get_order(table, idx):
    """Smallest m >= 1 with g^m = e."""
    e = get_identity_index(table)
    m, power = 1, idx
    while power != e:
        power = table[power, idx]
        m += 1
    return m


def is_matrix_group(rotations):
    """Closed, and every row of the Cayley table is a permutation."""
    try:
        table = get_cayley_table(rotations)
    except ValueError:
        return False
    n = len(rotations)
    for row in table:
        if set(row) != set(range(n)):
            return False
    return True


def get_factor_system_from_little_group(little_rotations, little_translations, kpoint, little_time_reversals=None):
    """mu(g_i, g_j) = exp(-2 pi i (R_i^T k -/+ k) . w_j), with + for operations that reverse time."""
    n = len(little_rotations)
    mu = np.zeros((n, n), dtype=complex)
    for i in range(n):
        image = little_rotations[i].T @ kpoint
        g = image - kpoint
        if little_time_reversals is not None and little_time_reversals[i] == 1:
            g = image + kpoint
        for j in range(n):
            mu[i, j] = np.exp(-2j * np.pi * (g @ little_translations[j]))
    return mu


def get_little_group(rotations, translations, kpoint, atol=1e-8, time_reversals=None):
    """Operations mapping k to +/- k up to a reciprocal lattice vector (R^T k = k, or -k with time reversal)."""
    selected = []
    for i in range(len(rotations)):
        image = rotations[i].T @ kpoint
        g = image - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            g = image + kpoint
        if np.allclose(g - np.rint(g), 0, atol=atol):
            selected.append(i)
    return (
        np.array([rotations[i] for i in selected]),
        np.array([translations[i] for i in selected]),
        np.array(selected),
    )


def check_cocycle_condition(rotations, factor_system):
    """mu(i, jk) mu(j, k) = mu(i, j) mu(ij, k) for every triple of a matrix group."""
    if not is_matrix_group(rotations):
        return False
    keys = [ndarray2d_to_integer_tuple(r) for r in rotations]
    n = len(rotations)
    for i in range(n):
        for j in range(n):
            for k in range(n):
                jk = keys.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))
                ij = keys.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))
                lhs = factor_system[i, jk] * factor_system[j, k]
                rhs = factor_system[ij, k] * factor_system[i, j]
                if not np.isclose(lhs, rhs):
                    return False
    return True


def decompose_by_maximal_space_subgroup(rotations, translations, time_reversals):
    """Unitary indices, indices of the coset a0 D (in the order of D a0), and the first anti-unitary operation."""
    if np.all(time_reversals == 0):
        return None
    n = len(rotations)
    a0 = -1
    rot0 = None
    trans0 = None
    for i in range(n):
        if time_reversals[i] != 0:
            a0, rot0, trans0 = i, rotations[i], translations[i]
            break
    unitary = [i for i in range(n) if time_reversals[i] == 0]
    coset = []
    for i in unitary:
        r = rotations[i] @ rot0
        t = rotations[i] @ trans0 + translations[i]
        for j in range(n):
            if time_reversals[j] == 0:
                continue
            if not np.allclose(r, rotations[j]):
                continue
            d = np.remainder(t - translations[j], 1)
            if np.allclose(d - np.rint(d), 0):
                coset.append(j)
                break
    return unitary, coset, a0
