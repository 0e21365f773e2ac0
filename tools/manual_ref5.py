"""Evaluation aid (not a check): fifth round of behaviour-preserving rewrites - one language construct each (views, slices, sets, classes, match, walrus, ...)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
import manual_ref2 as M2
M2.R.clear()
f = M2.f
R = M2.R
G, I, P, K, S, C, T, X, U = "group.py", "irreps.py", "representation.py", "core.py", "spinor.py", "corep.py", "transform.py", "tensor.py", "utils.py"

f("z_row_view", G, "get_cayley_table", '''
HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    keys = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]
    table = np.full((order, order), -1)
    for i in range(order):
        row = table[i]
        for j in range(order):
            k = keys.index((ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]), time_reversals[i] != time_reversals[j]))
            if row[j] != -1:
                raise ValueError("Should specify a matrix group.")
            row[j] = k
    return table
''')
f("z_row_append", G, "get_cayley_table", '''
HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    keys = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]
    table = []
    for ri, tri in zip(rotations, time_reversals):
        table.append([])
        for rj, trj in zip(rotations, time_reversals):
            table[-1].append(keys.index((ndarray2d_to_integer_tuple(ri @ rj), tri != trj)))
    return np.array(table)
''')
f("z_row_plus", G, "get_cayley_table", '''
HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    keys = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]
    table = []
    for ri, tri in zip(rotations, time_reversals):
        row = []
        for rj, trj in zip(rotations, time_reversals):
            row += [keys.index((ndarray2d_to_integer_tuple(ri @ rj), tri != trj))]
        table += [row]
    return np.array(table)
''')
f("z_pos_dict", G, "get_cayley_table", '''
HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    position = {}
    for i, (r, tr) in enumerate(zip(rotations, time_reversals)):
        position.setdefault((ndarray2d_to_integer_tuple(r), bool(tr)), i)
    table = np.empty((order, order), dtype=int)
    for i, j in np.ndindex(order, order):
        key = (ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]), bool(time_reversals[i] != time_reversals[j]))
        try:
            table[i, j] = position[key]
        except KeyError:
            raise ValueError("Should specify a matrix group.") from None
    return table
''')
f("z_class", G, "get_cayley_table", '''
class _Operation:
    def __init__(self, rotation, time_reversal):
        self.rotation = rotation
        self.time_reversal = time_reversal

    def __mul__(self, other):
        return _Operation(self.rotation @ other.rotation, self.time_reversal != other.time_reversal)

    def key(self):
        return (ndarray2d_to_integer_tuple(self.rotation), self.time_reversal)


HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    ops = [_Operation(r, tr) for r, tr in zip(rotations, time_reversals)]
    keys = [op.key() for op in ops]
    return np.array([[keys.index((a * b).key()) for b in ops] for a in ops])
''')
f("z_namedtuple", G, "get_little_group", '''
from collections import namedtuple
_Op = namedtuple("_Op", ["index", "rotation", "translation"])


HEADER
    ops = []
    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
        if np.allclose(residual, 0, atol=atol):
            ops.append(_Op(i, rotation, translation))
    return (
        np.array([op.rotation for op in ops]),
        np.array([op.translation for op in ops]),
        np.array([op.index for op in ops]),
    )
''')
f("z_zipstar", G, "get_little_group", '''
HEADER
    ops = []
    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
        if np.allclose(residual, 0, atol=atol):
            ops.append((rotation, translation, i))
    little_rotations, little_translations, mapping = zip(*ops)
    return np.array(little_rotations), np.array(little_translations), np.array(mapping)
''')
f("z_walrus", G, "get_little_group", None,
  ("        residual = residual - np.rint(residual)\n        if not np.allclose(residual, 0, atol=atol):\n            continue\n", "        if not np.allclose((reduced := residual - np.rint(residual)), 0, atol=atol):\n            continue\n"))
f("z_inplace_sub", G, "get_little_group", None,
  ("        residual = residual - np.rint(residual)\n", "        np.subtract(residual, np.rint(residual), out=residual)\n"))
f("z_bool_or", G, "get_little_group", None,
  ("    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and time_reversals[i] == 1:\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n", "    kpoint = np.asarray(kpoint)\n    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n        is_anti = time_reversals is not None and time_reversals[i] == 1\n        image = -(rotation.T @ kpoint) if is_anti else rotation.T @ kpoint\n        residual = image - kpoint\n"))
f("z_while_idx", G, "get_little_group", None,
  ("    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n", "    for i in range(len(rotations)):\n        rotation = rotations[i]\n        translation = translations[i]\n"))
f("z_countdown", G, "get_order", None,
  ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret", "    ret, tmp = 1, idx\n    while True:\n        if tmp == id_idx:\n            break\n        ret, tmp = ret + 1, table[tmp, idx]\n    return ret"))
f("z_count_iter", G, "get_order", None,
  ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret", "    from itertools import count\n    tmp = idx\n    for ret in count(1):\n        if tmp == id_idx:\n            return ret\n        tmp = table[tmp, idx]"))
f("z_for_range_order", G, "get_order", None,
  ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret", "    tmp = idx\n    for ret in range(1, table.shape[0] + 1):\n        if tmp == id_idx:\n            return ret\n        tmp = table[tmp, idx]\n    raise ValueError('Unreachable!')"))
f("z_where_id", G, "get_identity_index", None,
  ("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):\n            return i\n    raise ValueError('Unreachable!')", "    identity = np.arange(order)\n    rows = np.where((table == identity).all(axis=1))[0]\n    if rows.size == 0:\n        raise ValueError('Unreachable!')\n    return rows[0]"))
f("z_list_id", G, "get_identity_index", None,
  ("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):\n            return i\n    raise ValueError('Unreachable!')", "    for i, row in enumerate(table):\n        if list(row) == list(range(order)):\n            return i\n    raise ValueError('Unreachable!')"))
f("z_array_equal_id", G, "get_identity_index", None,
  ("np.all(table[i, :] == np.arange(order))", "np.array_equal(table[i], np.arange(order))"))
f("z_inv_argwhere", G, "get_inverse_index", None,
  ("    for i in range(order):\n        if table[idx, i] == id_idx:\n            return i\n    raise ValueError('Unreachable!')", "    row = list(table[idx])\n    if id_idx not in row:\n        raise ValueError('Unreachable!')\n    return row.index(id_idx)"))
f("z_try_else", G, "is_matrix_group", None,
  ("    try:\n        table = get_cayley_table(rotations)\n    except ValueError:\n        return False\n    order", "    try:\n        table = get_cayley_table(rotations)\n    except ValueError:\n        return False\n    else:\n        pass\n    order"))
f("z_try_else2", G, "is_matrix_group", '''
HEADER
    try:
        table = get_cayley_table(rotations)
    except ValueError:
        closed = False
    else:
        closed = True
    if not closed:
        return False
    expected = set(range(rotations.shape[0]))
    return all(set(table[i]) == expected for i in range(rotations.shape[0]))
''')
f("z_set_issuperset", G, "is_matrix_group", None,
  ("set(table[i]) != set(range(order))", "not set(range(order)) <= set(table[i])"))
f("z_set_diff", G, "is_matrix_group", None,
  ("set(table[i]) != set(range(order))", "set(range(order)) ^ set(table[i])"))
f("z_unique_len", G, "is_matrix_group", None,
  ("set(table[i]) != set(range(order))", "len(np.unique(table[i])) != order"))
f("z_np_fs", G, "get_factor_system_from_little_group", '''
HEADER
    n = len(little_rotations)
    kpoint = np.asarray(kpoint)
    images = np.einsum("nij,i->nj", little_rotations, kpoint)
    signs = np.ones(n)
    if little_time_reversals is not None:
        for i in range(n):
            if little_time_reversals[i] == 1:
                signs[i] = -1
    residuals = images - signs[:, None] * kpoint[None, :]
    return np.exp(-2j * np.pi * np.einsum("ia,ja->ij", residuals, little_translations))
''')
f("z_fs_listcomp", G, "get_factor_system_from_little_group", None,
  ("    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual in enumerate(residuals):\n        for j, translation in enumerate(little_translations):\n            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n    return factor_system", "    return np.array([[np.exp(-2j * np.pi * residual.dot(translation)) for translation in little_translations] for residual in residuals])"))
f("z_fs_euler", G, "get_factor_system_from_little_group", None,
  ("            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n", "            angle = -2 * np.pi * np.dot(residual, translation)\n            factor_system[i, j] = np.cos(angle) + 1j * np.sin(angle)\n"))
f("z_fs_conj", G, "get_factor_system_from_little_group", None,
  ("np.exp(-2j * np.pi * np.dot(residual, translation))", "np.conj(np.exp(2j * np.pi * np.dot(residual, translation)))"))
f("z_fs_continue", G, "get_factor_system_from_little_group", None,
  ("        residuals[i] = rotation.T @ kpoint - kpoint\n        if little_time_reversals is not None and little_time_reversals[i] == 1:\n            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)\n", "        if little_time_reversals is None or little_time_reversals[i] != 1:\n            residuals[i, :] = rotation.T @ kpoint - kpoint\n            continue\n        residuals[i, :] = rotation.T @ kpoint + np.asarray(kpoint)\n"))
f("z_coc_comb", G, "check_cocycle_condition", None,
  ("    for i, j, k in product(range(len(rotations)), repeat=3):\n", "    n = len(rotations)\n    for ijk in range(n**3):\n        i, rest = divmod(ijk, n * n)\n        j, k = divmod(rest, n)\n"))
f("z_msg_dropwhile", G, "decompose_by_maximal_space_subgroup", None,
  ("        for j in range(order):\n            if time_reversals[j] == 0:\n                continue\n            if not np.allclose(new_rot, rotations[j]):\n                continue\n            diff = np.remainder(new_trans - translations[j], 1)\n            diff -= np.rint(diff)\n            if np.allclose(diff, 0):\n                time_reversal_indices.append(j)\n                break\n", "        for j, (rot_j, trans_j, tr_j) in enumerate(zip(rotations, translations, time_reversals)):\n            if tr_j == 0 or not np.allclose(new_rot, rot_j):\n                continue\n            diff = np.remainder(new_trans - trans_j, 1)\n            diff = diff - np.rint(diff)\n            if np.allclose(diff, 0):\n                time_reversal_indices += [j]\n                break\n"))
f("z_msg_unpack", G, "decompose_by_maximal_space_subgroup", None,
  ("        rot = rotations[i]\n        trans = translations[i]\n        new_rot = rot @ conjugator_rotation\n        new_trans = rot @ conjugator_translation + trans\n", "        rot, trans = rotations[i], translations[i]\n        new_rot, new_trans = rot @ conjugator_rotation, rot @ conjugator_translation + trans\n"))
f("z_msg_any", G, "decompose_by_maximal_space_subgroup", None,
  ("    if np.all(time_reversals == 0):\n        return None\n", "    if not np.any(time_reversals):\n        return None\n"))
f("z_msg_nonzero", G, "decompose_by_maximal_space_subgroup", None,
  ("list(np.arange(order)[time_reversals == 0])", "[i for i in range(order) if time_reversals[i] == 0]"))
# ------------------------------------------------------------------ irreps
f("z_phys_view", I, "get_physically_irrep", None,
  ("        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        upper, lower = real_irrep[:, :dim], real_irrep[:, dim:]\n        upper[:, :, :dim] = irrep.real\n        upper[:, :, dim:] = irrep.imag\n        lower[:, :, :dim] = -irrep.imag\n        lower[:, :, dim:] = irrep.real\n"))
f("z_phys_block", I, "get_physically_irrep", None,
  ("        real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        re, im = np.real(irrep), np.imag(irrep)\n        real_irrep = np.block([[re, im], [-im, re]])\n"))
f("z_phys_loop", I, "get_physically_irrep", None,
  ("        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        for k, matrix in enumerate(irrep):\n            real_irrep[k, :dim, :dim] = np.real(matrix)\n            real_irrep[k, :dim, dim:] = np.imag(matrix)\n            real_irrep[k, dim:, :dim] = -np.imag(matrix)\n            real_irrep[k, dim:, dim:] = np.real(matrix)\n"))
f("z_phys_kron", I, "get_physically_irrep", None,
  ("        real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        real_irrep = np.array([np.kron(np.eye(2), m.real) + np.kron([[0, 1], [-1, 0]], m.imag) for m in irrep])\n"))
f("z_phys_not1", I, "get_physically_irrep", None,
  ("    elif indicator in [-1, 0]:\n", "    elif indicator == 0 or indicator == -1:\n"))
f("z_phys_cmp", I, "get_physically_irrep", None,
  ("    elif indicator in [-1, 0]:\n", "    else:\n"))
f("z_purify_mask", I, "purify_irrep_value", None,
  ("        irrep[np.abs(irrep - v) < atol] = v\n", "        close = np.abs(irrep - v) < atol\n        np.putmask(irrep, close, v)\n"))
f("z_purify_copyto", I, "purify_irrep_value", None,
  ("        irrep[np.abs(irrep - v) < atol] = v\n", "        np.copyto(irrep, v, where=np.abs(irrep - v) < atol)\n"))
f("z_purify_slice", I, "purify_irrep_value", None,
  ("        irrep[np.abs(irrep - v) < atol] = v\n", "        irrep[:] = np.where(np.abs(irrep - v) < atol, v, irrep)\n"))
f("z_purify_ellipsis", I, "purify_real_irrep_value", None,
  ("        real_irrep[np.abs(real_irrep - v) < atol] = v\n", "        real_irrep[...] = np.where(np.abs(real_irrep - v) < atol, v, real_irrep)\n"))
f("z_eq_ternary", I, "is_equivalent_irrep", None,
  ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n        return True\n    else:\n        return False", "    overlap = np.around(np.sum(np.conj(character1) * character2))\n    return True if overlap == order else False"))
f("z_eq_at", I, "is_equivalent_irrep", None,
  ("np.sum(np.conj(character1) * character2)", "character1.conj() @ character2"))
f("z_un_match", I, "enumerate_unitary_irreps", None,
  ("    if method == 'Neto':\n        table = get_cayley_table(rotations)\n        solvable_chain_generators = get_pointgroup_chain_generators(rotations)\n        irreps = enumerate_unitary_irreps_from_solvable_group_chain(table, factor_system, solvable_chain_generators, atol=atol, max_num_random_generations=max_num_random_generations)\n    elif method == 'random':\n        reg = get_projective_regular_representation(rotations, factor_system)\n        irreps = enumerate_unitary_irreps_from_regular_representation(reg, rtol=rtol, max_num_random_generations=max_num_random_generations)\n    else:\n        raise ValueError(f'Unknown method to compute irreps: {method}')\n",
   "    match method:\n        case 'Neto':\n            table = get_cayley_table(rotations)\n            solvable_chain_generators = get_pointgroup_chain_generators(rotations)\n            irreps = enumerate_unitary_irreps_from_solvable_group_chain(table, factor_system, solvable_chain_generators, atol=atol, max_num_random_generations=max_num_random_generations)\n        case 'random':\n            reg = get_projective_regular_representation(rotations, factor_system)\n            irreps = enumerate_unitary_irreps_from_regular_representation(reg, rtol=rtol, max_num_random_generations=max_num_random_generations)\n        case _:\n            raise ValueError(f'Unknown method to compute irreps: {method}')\n"))
f("z_un_purify_idx", I, "enumerate_unitary_irreps", None,
  ("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n", "    for i in range(len(irreps)):\n        irreps[i] = purify_irrep_value(irreps[i], atol=atol)\n"))
f("z_un_purify_map", I, "enumerate_unitary_irreps", None,
  ("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n", "    irreps = list(map(lambda irrep: purify_irrep_value(irrep, atol=atol), irreps))\n"))
f("z_pairs_pop", I, "enumerate_unitary_irreps", None,
  ("    visited = [False for _ in range(len(irreps))]\n", "    visited = [False] * len(irreps)\n"), ("        inequivalent = False\n        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))\n", "        for j, cj in enumerate(characters):\n            if not visited[j] and is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                break\n        else:\n            conjugated_pairs.append((i, i))\n"))
f("z_pairs_set", I, "enumerate_small_representations", None,
  ("    visited = [False for _ in range(len(irreps))]\n", "    visited = set()\n"), ("        if visited[i]:\n            continue\n        visited[i] = True\n", "        if i in visited:\n            continue\n        visited.add(i)\n"), ("            if visited[j]:\n                continue\n", "            if j in visited:\n                continue\n"), ("                visited[j] = True\n", "                visited.add(j)\n"))
f("z_ind_tuple", I, "enumerate_small_representations", None,
  ("        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0\n", "        indicator = 0\n        if is_self_conjugate_kpoint:\n            indicator = frobenius_schur_indicator(irrep)\n"))
f("z_pair_unpack", I, "enumerate_small_representations", None,
  ("    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n", "    for i, _ in conjugated_pairs:\n        irrep = irreps[i]\n"))
f("z_phase_inline", I, "enumerate_small_representations", None,
  ("    irreps = []\n    for rep in little_cogroup_irreps:\n        phases = np.array([np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations])\n        irreps.append(rep * phases[:, None, None])\n", "    irreps = []\n    for rep in little_cogroup_irreps:\n        small = np.zeros_like(rep)\n        for i, translation in enumerate(little_translations):\n            small[i] = np.exp(-2j * np.pi * np.dot(kpoint, translation)) * rep[i]\n        irreps.append(small)\n"))
f("z_phase_listmul", I, "enumerate_small_representations", None,
  ("    irreps = []\n    for rep in little_cogroup_irreps:\n        phases = np.array([np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations])\n        irreps.append(rep * phases[:, None, None])\n", "    phases = np.exp(-2j * np.pi * np.dot(little_translations, kpoint)).reshape(-1, 1, 1)\n    irreps = [phases * rep for rep in little_cogroup_irreps]\n"))
f("z_dec_forelse", I, "decompose_representation", None,
  ("        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:\n            return irreps\n    warn(", "        if sum(irrep.shape[1] for irrep in irreps) == dim0:\n            break\n    else:\n        irreps = []\n        warn("), ("    return []", "    return irreps"))
f("z_dec_mat_T", I, "decompose_representation", None,
  ("        hermite_random += np.conj(hermite_random.T)\n", "        hermite_random = hermite_random + hermite_random.conj().T\n"),
  ("        matrix = np.einsum('mik,kl,mjl->ij', representation, hermite_random, np.conj(representation), optimize='greedy')\n", "        matrix = sum((m @ hermite_random @ m.conj().T for m in representation))\n"))
f("z_reg_lookup", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("    for m, i in product(range(n), repeat=2):\n        idx = np.nonzero(reg[m, i, :])[0]\n        reg_nonzero[m, i] = reg[m, i, idx]\n        lookup[m, i] = idx\n", "    for m in range(n):\n        for i in range(n):\n            (idx,) = np.nonzero(reg[m, i])\n            lookup[m, i] = idx\n            reg_nonzero[m, i] = reg[m, i, idx]\n"))
f("z_mat_space_list", I, "_get_irreps_from_matrix", None,
  ("                eigenspaces[i][1].append(eigvec)\n", "                space = eigenspaces[i][1]\n                space.append(eigvec)\n"))
f("z_mat_sortpair", I, "_get_irreps_from_matrix", None,
  ("    argidx = sorted(range(len(irreps)), key=lambda i: (irreps[i].shape[1], -np.sum(characters[i])))\n    sorted_irreps = [irreps[i] for i in argidx]\n    return sorted_irreps", "    paired = sorted(zip(irreps, characters), key=lambda pair: (pair[0].shape[1], -np.sum(pair[1])))\n    return [irrep for irrep, _ in paired]"))
f("z_ch_slots", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                            next_irrep[group_remapping[idx], i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] = factor_system", "                            rows = slice(i * dim, (i + 1) * dim)\n                            cols = slice(j * dim, (j + 1) * dim)\n                            next_irrep[group_remapping[idx], rows, cols] = factor_system"))
f("z_ch_block_view", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                            next_irrep[group_remapping[idx], i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] = factor_system", "                            block = next_irrep[group_remapping[idx]]\n                            block[i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] = factor_system"))
f("z_ch_six_dim", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                            next_irrep[group_remapping[idx], i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] = factor_system", "                            r0, c0 = i * dim, j * dim\n                            next_irrep[group_remapping[idx]][r0:r0 + dim, c0:c0 + dim] = factor_system"))
f("z_ch_chain_iter", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        group = []\n        for m in range(p):\n            group.extend([table[rm[m], s] for s in subgroup])\n        group = sorted(list(set(group)))\n", "        group = sorted({table[rm[m], s] for m in range(p) for s in subgroup})\n"))
f("z_ch_dictzip", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        subgroup_remapping = {}\n        for i, si in enumerate(subgroup):\n            subgroup_remapping[si] = i\n", "        subgroup_remapping = dict(zip(subgroup, range(len(subgroup))))\n"))
f("z_ch_index", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        group_remapping = {}\n        for i, gi in enumerate(group):\n            group_remapping[gi] = i\n", ""), ("next_irrep[group_remapping[idx]] =", "next_irrep[group.index(idx)] ="), ("next_irrep[group_remapping[idx], i", "next_irrep[group.index(idx), i"))
f("z_ch_matpow", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                scale = intertwiner.copy()\n                for _ in range(p - 1):\n                    scale = np.dot(intertwiner, scale)\n", "                scale = np.linalg.matrix_power(intertwiner, p)\n"))
f("z_ch_accumulate", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                    delta_rm = [np.eye(intertwiner.shape[0], dtype=np.complex_)]\n                    for m in range(1, p):\n                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])\n", "                    delta_rm = [np.eye(intertwiner.shape[0], dtype=np.complex_)]\n                    for m in range(p - 1):\n                        previous = delta_rm[-1]\n                        delta_rm.append(delta_r @ previous / factor_system[r, rm[m]])\n"))
# ------------------------------------------------------------------ representation
f("z_inter_pow", P, "get_intertwiner", None,
  ("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix\n", "            return matrix / np.power(np.linalg.det(matrix), 1 / dim)\n"))
f("z_inter_j", P, "get_intertwiner", None,
  ("random = rng.random((dim, dim)) + rng.random((dim, dim)) * 1j", "real_part = rng.random((dim, dim))\n        imag_part = rng.random((dim, dim))\n        random = real_part + 1j * imag_part"))
f("z_inter_seed", P, "get_intertwiner", None,
  ("np.random.default_rng(0)", "np.random.default_rng(seed=0)"))
f("z_inter_swap", P, "get_intertwiner", None,
  ("    rng = np.random.default_rng(0)\n    for _ in range(max_num_random_generations):\n", "    seed = 0\n    rng = np.random.default_rng(seed)\n    trials = range(max_num_random_generations)\n    for _trial in trials:\n"))
f("z_reg_ix", P, "get_regular_representation", None,
  ("    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = 1\n", "    k, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')\n    reg[k, table, j] = 1\n"))
f("z_reg_eq", P, "get_regular_representation", None,
  ("    reg = np.zeros((n, n, n), dtype=int)\n    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = 1\n    return reg", "    return (table[:, None, :] == np.arange(n)[None, :, None]).astype(int)"))
f("z_reg_view", P, "get_projective_regular_representation", None,
  ("    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = factor_system[k, j]\n", "    for k, matrix in enumerate(reg):\n        for j in range(n):\n            matrix[table[k, j], j] = factor_system[k, j]\n"))
f("z_isrep_np", P, "is_representation", None,
  ("            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n", "            expect = factor_system[i, j] * rep[table[i, j]]\n            if np.allclose(ri @ rj, expect, rtol=rtol, atol=atol):\n                continue\n            return False\n"))
f("z_isrep_flag", P, "is_representation", None,
  ("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True", "    ok = True\n    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            ok = ok and np.allclose(actual, expect, rtol=rtol, atol=atol)\n    return ok"))
f("z_isrep_and", P, "is_representation", None,
  ("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True", "    ok = True\n    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            ok &= np.allclose(actual, expect, rtol=rtol, atol=atol)\n    return bool(ok)"))
f("z_unit_broadcast", P, "is_unitary", None,
  ("    for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n    return True", "    products = representation @ np.conj(np.swapaxes(representation, 1, 2))\n    return bool(np.allclose(products, np.eye(dim)[None, :, :]))"))
f("z_fsi_vec", P, "frobenius_schur_indicator", None,
  ("    indicator = np.einsum('kij,kji->', irrep, irrep, optimize='greedy') / order\n", "    squares = irrep @ irrep\n    indicator = np.sum(np.trace(squares, axis1=1, axis2=2)) / order\n"))
f("z_fsi_int", P, "frobenius_schur_indicator", None,
  ("    indicator = int(np.around(np.real(indicator)))\n", "    indicator = int(round(indicator.real))\n"))
f("z_fsi_gt", P, "frobenius_schur_indicator", None,
  ("    if indicator > 1:\n", "    if not indicator <= 1:\n"))
f("z_chk_dict", P, "check_spacegroup_representation", None,
  ("    little_rotations_int = [ndarray2d_to_integer_tuple(rotation) for rotation in little_rotations]\n", "    index_of = {ndarray2d_to_integer_tuple(rotation): i for i, rotation in enumerate(little_rotations)}\n"), ("little_rotations_int.index(ndarray2d_to_integer_tuple(r12))", "index_of[ndarray2d_to_integer_tuple(r12)]"))
f("z_chk_range", P, "check_spacegroup_representation", None,
  ("    for idx1, (r1, t1, m1) in enumerate(zip(little_rotations, little_translations, rep)):\n        for idx2, (r2, t2, m2) in enumerate(zip(little_rotations, little_translations, rep)):\n", "    for idx1, idx2 in product(range(order), repeat=2):\n            r1, t1, m1 = little_rotations[idx1], little_translations[idx1], rep[idx1]\n            r2, t2, m2 = little_rotations[idx2], little_translations[idx2], rep[idx2]\n"))
f("z_dir_list", P, "get_direct_product", None,
  ("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(order, dim1 * dim2, dim1 * dim2)\n    return direct", "    return np.array([np.kron(m1, m2) for m1, m2 in zip(rep1, rep2)])"))
f("z_dir_loop4", P, "get_direct_product", None,
  ("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(order, dim1 * dim2, dim1 * dim2)\n    return direct", "    direct = np.zeros((order, dim1 * dim2, dim1 * dim2), dtype=np.result_type(rep1, rep2))\n    for i in range(dim1):\n        for j in range(dim1):\n            direct[:, i * dim2:(i + 1) * dim2, j * dim2:(j + 1) * dim2] = rep1[:, i, j, None, None] * rep2\n    return direct"))
f("z_proj_nested_sum", P, "project_to_irrep", None,
  ("np.einsum('ki,km->im', np.conj(irrep[:, :, j]), representation[:, :, n], optimize='greedy')", "np.conj(irrep[:, :, j]).T @ representation[:, :, n]"))
f("z_proj_norm", P, "project_to_irrep", None,
  ("                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n", "                norms = np.linalg.norm(basis_nj, axis=1)\n                basis_nj = basis_nj / norms[:, np.newaxis]\n"))
f("z_proj_norm_keep", P, "project_to_irrep", None,
  ("                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n", "                basis_nj /= np.linalg.norm(basis_nj, axis=1, keepdims=True)\n"))
f("z_proj_final", P, "project_to_irrep", None,
  ("    if count < num_basis:\n        warn(f'Inconsistent number of independent basis vectors (expect={num_basis}, actual={count}).Try decreasing atol.')\n    elif count > num_basis:\n        warn(f'Inconsistent number of independent basis vectors (expect={num_basis}, actual={count}).Try increasing atol.')\n", "    if count != num_basis:\n        direction = 'decreasing' if count < num_basis else 'increasing'\n        warn(f'Inconsistent number of independent basis vectors (expect={num_basis}, actual={count}).Try {direction} atol.')\n"))
# ------------------------------------------------------------------ spinor / corep
f("z_sp_empty", S, "get_spinor_factor_system", None,
  ("    spinor_factor_system = np.zeros((order, order), dtype=np.complex_)\n", "    spinor_factor_system = np.ones((order, order), dtype=np.complex_)\n"), ("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        if not overlap > 0:\n            spinor_factor_system[i, j] = -1\n"))
f("z_sp_sign_np", S, "get_spinor_factor_system", None,
  ("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        spinor_factor_system[i, j] = 2 * int(overlap > 0) - 1\n"))
f("z_sp_broadcast", S, "get_spinor_factor_system", '''
HEADER
    unitary_rotations = np.array([get_spinor_unitary_rotation(lattice, rotation) for rotation in rotations])
    table = get_cayley_table(rotations)
    products = np.einsum("iab,jbc->ijac", unitary_rotations, unitary_rotations)
    overlaps = np.einsum("ijab,ijab->ij", products, np.conj(unitary_rotations[table])).real
    spinor_factor_system = np.where(overlaps > 0, 1, -1).astype(np.complex_)
    return spinor_factor_system, unitary_rotations
''')
f("z_sp_enum_default", S, "enumerate_spinor_small_representations", None,
  ("    if little_translations is None:\n        little_translations = np.zeros((len(little_rotations), 3))\n    if kpoint is None:\n        kpoint = np.zeros(3)\n", "    kpoint = np.zeros(3) if kpoint is None else kpoint\n    little_translations = np.zeros((len(little_rotations), 3)) if little_translations is None else little_translations\n"))
f("z_sp_axis_argmax", S, "get_rotation_angle_and_axis", None,
  ("            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n", "            first_nonzero = next(j for j in range(3) if not np.isclose(cart_axis[j], 0))\n            if cart_axis[first_nonzero] < 0:\n                cart_axis = -cart_axis\n"))
f("z_sp_axis_zip", S, "get_rotation_angle_and_axis", None,
  ("        for i in range(3):\n            if not np.isclose(eigvals[i], 1):\n                continue\n            cart_axis = np.real(eigvecs[:, i])\n", "        for eigval, eigvec in zip(eigvals, eigvecs.T):\n            if not np.isclose(eigval, 1):\n                continue\n            cart_axis = np.real(eigvec)\n"))
f("z_sp_axis_sign", S, "get_rotation_angle_and_axis", None,
  ("                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n", "                    cart_axis *= np.sign(cart_axis[j])\n                    break\n"))
f("z_co_where_idx", C, "enumerate_spinor_small_corepresentations", None,
  ("    xsg_indices_mapping = {}\n    for i, idx in enumerate(xsg_indices):\n        xsg_indices_mapping[idx] = i\n", "    xsg_indices_mapping = dict()\n    i = 0\n    for idx in xsg_indices:\n        xsg_indices_mapping[idx] = i\n        i += 1\n"))
f("z_co_view", C, "enumerate_spinor_small_corepresentations", None,
  ("            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n", "            upper_right = corep_a0[:dim, dim:]\n            upper_right[...] = -U\n            lower_left = corep_a0[dim:, :dim]\n            lower_left[...] = U\n"))
f("z_co_block", C, "enumerate_spinor_small_corepresentations", None,
  ("            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n", "            zeros = np.zeros((dim, dim), dtype=np.complex_)\n            corep_a0 = np.block([[zeros, -U], [U, zeros]])\n"))
f("z_co_kron", C, "enumerate_spinor_small_corepresentations", None,
  ("            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n", "            corep_a0 = np.kron(np.array([[0, -1], [1, 0]]), U)\n"))
f("z_co_list_conj", C, "enumerate_spinor_small_corepresentations", None,
  ("    conj_irreps = []\n    table", "    table"), ("    for irrep in little_cogroup_irreps:\n        conj_indices", "    conj_irreps = [None] * len(little_cogroup_irreps)\n    for n, irrep in enumerate(little_cogroup_irreps):\n        conj_indices"), ("        conj_irreps.append(conj_irrep)\n", "        conj_irreps[n] = conj_irrep\n"))
f("z_co_fs_list", C, "get_corep_spinor_factor_system", None,
  ("    anti_linear = np.zeros((order,), dtype=np.bool_)\n", "    anti_linear = [False] * order\n"), ("    table = get_cayley_table(rotations, time_reversals)\n", "    anti_linear = np.array(anti_linear)\n    table = get_cayley_table(rotations, time_reversals)\n"))
# ------------------------------------------------------------------ tensor / transform / utils / core
f("z_te_perm", X, "apply_intrinsic_symmetry", None,
  ("        perms = list(permutations(range(rank)))\n        sym_tensor = np.zeros_like(coeff)\n        coeff = coeff / np.linalg.norm(coeff)\n        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "        coeff = coeff / np.linalg.norm(coeff)\n        sym_tensor = np.zeros_like(coeff)\n        for perm in permutations(range(rank)):\n            sym_tensor = sym_tensor + coeff.transpose(perm)\n"))
f("z_te_sum", X, "apply_intrinsic_symmetry", None,
  ("        perms = list(permutations(range(rank)))\n        sym_tensor = np.zeros_like(coeff)\n        coeff = coeff / np.linalg.norm(coeff)\n        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "        coeff = coeff / np.linalg.norm(coeff)\n        sym_tensor = sum((np.transpose(coeff, axes=perm) for perm in permutations(range(rank))))\n"))
f("z_te_while", X, "get_symmetry_adapted_tensors", None,
  ("    all_tensor_basis = all_vector_basis[:]\n    for _ in range(rank - 1):\n", "    all_tensor_basis = list(all_vector_basis)\n    for _rank in range(2, rank + 1):\n"))
f("z_te_nested", X, "get_symmetry_adapted_tensors", None,
  ("        for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(all_tensor_basis, all_vector_basis):\n", "        for tensor_pair, vector_pair in product(all_tensor_basis, all_vector_basis):\n            tensor_basis, tensor_irrep = tensor_pair\n            vector_basis, vector_irrep = vector_pair\n"))
f("z_te_all", X, "get_symmetry_adapted_tensors", None,
  ("        list_basis = project_to_irrep(rep, irrep, atol=atol)\n        for basis in list_basis:\n            all_vector_basis.append((basis, irrep))\n", "        all_vector_basis.extend([(basis, irrep) for basis in project_to_irrep(rep, irrep, atol=atol)])\n"))
f("z_uq_dict", T, "unique_primitive_symmetry", '''
HEADER
    first_seen = {}
    unique_rotations = []
    unique_translations = []
    mapping_to_primitive_symmetry = []
    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
        key = ndarray2d_to_integer_tuple(rotation)
        if time_reversals is not None:
            key = (key, bool(time_reversals[i]))
        if key not in first_seen:
            first_seen[key] = len(unique_rotations)
            unique_rotations.append(rotation)
            unique_translations.append(np.remainder(translation, 1))
        mapping_to_primitive_symmetry.append(first_seen[key])
    return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
''')
f("z_uq_setdefault", T, "unique_primitive_symmetry", '''
HEADER
    positions = {}
    firsts = []
    mapping = []
    for i in range(len(rotations)):
        key = (ndarray2d_to_integer_tuple(rotations[i]), False if time_reversals is None else bool(time_reversals[i]))
        j = positions.setdefault(key, len(positions))
        if j == len(firsts):
            firsts.append(i)
        mapping.append(j)
    return np.array([rotations[i] for i in firsts]), np.array([np.remainder(translations[i], 1) for i in firsts]), mapping
''')
f("z_tr_T", T, "transform_symmetry_and_kpoint", None,
  ("    transformed_translations = np.array([pinv @ translation for translation in translations])\n", "    transformed_translations = (pinv @ np.transpose(translations)).T\n"))
f("z_tr_bcast", T, "transform_symmetry_and_kpoint", None,
  ("    transformed_rotations = np.array([pinv @ rotation @ transformation_matrix for rotation in rotations])\n", "    transformed_rotations = pinv[None, :, :] @ rotations @ transformation_matrix[None, :, :]\n"))
f("z_cry_bisect", T, "get_crystal_system", None,
  ("    for csystem, (lb, ub) in crystal_system_range.items():\n        if lb <= hall_number and hall_number <= ub:\n            return csystem\n", "    for csystem in crystal_system_range:\n        lb, ub = crystal_system_range[csystem]\n        if not (hall_number < lb or hall_number > ub):\n            return csystem\n"))
f("z_gr_dims", U, "grassmann_distance", None,
  ("    dim = min(basis1.shape[0], basis2.shape[0])\n", "    dim = basis1.shape[0] if basis1.shape[0] < basis2.shape[0] else basis2.shape[0]\n"))
f("z_gr_angles", U, "grassmann_distance", None,
  ("        distance = np.sqrt(np.mean(np.arccos(np.clip(canonical_correlations[:dim], a_min=-1, a_max=1)) ** 2))\n", "        angles = np.arccos(np.clip(canonical_correlations[:dim], -1, 1))\n        distance = np.linalg.norm(angles) / np.sqrt(dim)\n"))
f("z_gr_max0", U, "grassmann_distance", None,
  ("np.clip(1 - canonical_correlations[dim - 1] ** 2, a_min=0, a_max=None)", "max(0, 1 - canonical_correlations[dim - 1] ** 2)"))
f("z_nroot_exp", U, "nroot", None,
  ("    return r * np.exp(1j * angle)", "    return r * (np.cos(angle) + 1j * np.sin(angle))"))
f("z_nroot_abs", U, "nroot", None,
  ("    r = np.absolute(root)\n", "    r = abs(root)\n"))
f("z_int_list", U, "ndarray2d_to_integer_tuple", None,
  ("    array_t = tuple(map(tuple, array_int.tolist()))\n    return array_t", "    rows = [tuple(int(x) for x in row) for row in array_int]\n    return tuple(rows)"))
f("z_mode_einsum", U, "mode_dot", '''
HEADER
    ret = coeffs.copy()
    for axis, mat in enumerate(list_matrix):
        ret = np.moveaxis(np.tensordot(mat, ret, axes=(1, axis)), 0, axis)
    return ret
''')
f("z_adj_view", K, "_adjust_phase_for_centering_translations", None,
  ("        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n        irrep = purify_irrep_value(irrep, atol=atol)\n        irreps.append(irrep)\n", "        irrep = prim_irrep[mapping_conv_to_prim_little_group]\n        irrep *= phases[:, None, None]\n        purify_irrep_value(irrep, atol=atol)\n        irreps.append(irrep)\n"))
f("z_adj_try", K, "_adjust_phase_for_centering_translations", None,
  ("        idx_prim_little = remapping_prim_little_group.get(idx_prim)\n        if idx_prim_little is None:\n            continue\n", "        try:\n            idx_prim_little = remapping_prim_little_group[idx_prim]\n        except KeyError:\n            continue\n"))
f("z_adj_list", K, "_adjust_phase_for_centering_translations", None,
  ("        idx_prim_little = remapping_prim_little_group.get(idx_prim)\n        if idx_prim_little is None:\n            continue\n", "        if idx_prim not in mapping_prim_little_group:\n            continue\n        idx_prim_little = list(mapping_prim_little_group).index(idx_prim)\n"))
f("z_core_unpack", K, "get_spacegroup_irreps", None,
  ("    prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(to_primitive, rotations, translations, kpoint_conv)\n", "    transformed = transform_symmetry_and_kpoint(to_primitive, rotations, translations, kpoint_conv)\n    prim_rotations, prim_translations, prim_kpoint = transformed\n"))
f("z_core_star", K, "get_spacegroup_irreps", None,
  ("    irreps, mapping_little_group, _ = _adjust", "    irreps, mapping_little_group, *_ = _adjust"))
f("z_core_get", K, "get_spacegroup_irreps", None,
  ("    rotations = dataset['rotations']\n    translations = dataset['translations']\n", "    rotations, translations = (dataset[key] for key in ('rotations', 'translations'))\n"))

if __name__ == "__main__":
    M.main(R, sys.argv[1:])
