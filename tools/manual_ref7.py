"""Evaluation aid (not a check): seventh round of behaviour-preserving rewrites - whole bodies written another way."""
import ast, os, sys, textwrap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
R = []
G, I, P, K, S, C, T, X, U, PG = "group.py", "irreps.py", "representation.py", "core.py", "spinor.py", "corep.py", "transform.py", "tensor.py", "utils.py", "pointgroup.py"


def w(id, file, name, body, pre="", imports=""):
    """The body of a function replaced; `pre` goes before the function, `imports` after the __future__ import."""
    whole = s = open(M.SRC + "/" + file).read()
    fd = next(n for n in ast.parse(s).body if isinstance(n, ast.FunctionDef) and n.name == name)
    lines = s.split("\n")
    first = fd.body[1] if isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant) and isinstance(fd.body[0].value.value, str) else fd.body[0]
    start = fd.body[0].lineno if first is fd.body[0] else fd.body[0].end_lineno + 1
    new = lines[: fd.lineno - 1] + ([textwrap.dedent(pre), ""] if pre else []) + lines[fd.lineno - 1: start - 1] + [textwrap.indent(textwrap.dedent(body).strip("\n"), "    ")] + lines[fd.end_lineno:]
    s = "\n".join(new)
    if imports:
        s = s.replace("from __future__ import annotations\n", "from __future__ import annotations\n" + imports, 1)
    ast.parse(s)
    R.append((id, file, ((whole, s),)))


w("v_prime_6k", U, "is_prime", '''
if n < 4:
    return n > 1
if n % 2 == 0 or n % 3 == 0:
    return False
i = 5
while i * i <= n:
    if n % i == 0 or n % (i + 2) == 0:
        return False
    i += 6
return True
''')
w("v_prime_sqrt", U, "is_prime", '''
if n < 2:
    return False
for i in range(2, int(np.sqrt(n)) + 1):
    if n % i == 0:
        return False
return True
''')
w("v_prime_isqrt", U, "is_prime", '''
return n >= 2 and all(n % i != 0 for i in range(2, isqrt(n) + 1))
''', imports="from math import isqrt\n")
w("v_prime_even", U, "is_prime", '''
if n == 2:
    return True
if n < 2 or n % 2 == 0:
    return False
for d in range(3, n, 2):
    if n % d == 0:
        return False
return True
''')
w("v_prime_table", U, "is_prime", '''
if n < 2:
    return False
for p in (2, 3, 5, 7):
    if n % p == 0:
        return n == p
for d in range(11, n):
    if n % d == 0:
        return False
return True
''')
w("v_prime_divisors", U, "is_prime", '''
divisors = [d for d in range(1, n + 1) if n % d == 0]
return len(divisors) == 2
''')
w("v_nroot_polar", U, "nroot", '''
root = z ** (1 / n)
step = 2 * np.pi / n
angle = np.angle(root)
angle = angle - step * np.rint(angle / step)
return np.abs(root) * (np.cos(angle) + 1j * np.sin(angle))
''')
w("v_int_abs", U, "is_integer_array", '''
array_int = np.around(array).astype(int)
return bool(np.all(np.isclose(array_int, array, rtol=rtol, atol=atol)))
''')
w("v_tuple_comp", U, "ndarray2d_to_integer_tuple", '''
return tuple(tuple(int(v) for v in row) for row in np.around(array).astype(int))
''')
w("v_tuple_rint", U, "ndarray2d_to_integer_tuple", '''
rounded = np.rint(array).astype(int)
return tuple(tuple(row) for row in rounded.tolist())
''')
w("v_mode_tensordot", U, "mode_dot", '''
ret = coeffs.copy()
for axis, mat in enumerate(list_matrix):
    ret = np.moveaxis(np.tensordot(ret, mat, axes=(axis, 0)), -1, axis)
return ret
''')
w("v_grass_split", U, "grassmann_distance", '''
def orthonormalize(basis):
    if skip_orthonormalization:
        return basis.T
    q, _ = np.linalg.qr(basis.T)
    return q

overlap = np.conj(orthonormalize(basis1)).T @ orthonormalize(basis2)
correlations = np.linalg.svd(overlap, compute_uv=False)
dim = min(len(basis1), len(basis2))
if ord == "min":
    smallest = correlations[dim - 1]
    return np.sqrt(max(1 - smallest * smallest, 0))
if ord == "projection":
    angles = np.arccos(np.clip(correlations[:dim], -1, 1))
    return np.sqrt(np.sum(angles * angles) / dim)
raise ValueError(f"Unknown type of Grassmann distance: {ord}")
''')
# group
w("v_table_dict", G, "get_cayley_table", '''
order = len(rotations)
if time_reversals is None:
    time_reversals = np.zeros(order, dtype=int)
lookup = {}
for i, (r, tr) in enumerate(zip(rotations, time_reversals)):
    lookup.setdefault((ndarray2d_to_integer_tuple(r), bool(tr)), i)
table = np.zeros((order, order), dtype=int)
for i in range(order):
    for j in range(order):
        key = (ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]), bool(time_reversals[i] != time_reversals[j]))
        if key not in lookup:
            raise ValueError("Should specify a matrix group.")
        table[i, j] = lookup[key]
return table
''')
w("v_table_xor", G, "get_cayley_table", '''
order = rotations.shape[0]
if time_reversals is None:
    time_reversals = np.zeros((order,), dtype=np.int_)
operations = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]
table = []
for ri, tri in zip(rotations, time_reversals):
    row = []
    for rj, trj in zip(rotations, time_reversals):
        product_ij = (ndarray2d_to_integer_tuple(ri @ rj), tri != trj)
        row.append(operations.index(product_ij))
    table.append(row)
return np.array(table)
''')
w("v_ident_eq", G, "get_identity_index", '''
expected = list(range(len(table)))
for i, row in enumerate(table):
    if list(row) == expected:
        return i
raise ValueError("Unreachable!")
''')
w("v_ident_else", G, "get_identity_index", '''
order = table.shape[0]
for i in range(order):
    if np.array_equal(table[i], np.arange(order)):
        break
else:
    raise ValueError("Unreachable!")
return i
''')
w("v_inverse_list", G, "get_inverse_index", '''
id_idx = get_identity_index(table)
candidates = [i for i in range(len(table)) if table[idx, i] == id_idx]
if not candidates:
    raise ValueError("Unreachable!")
return candidates[0]
''')
w("v_order_for", G, "get_order", '''
id_idx = get_identity_index(table)
power = idx
count = 1
while power != id_idx:
    power, count = table[power, idx], count + 1
return count
''')
w("v_mg_sorted", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
order = len(rotations)
return all(len(set(row)) == order for row in table.tolist())
''')
w("v_mg_any", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
everything = set(range(rotations.shape[0]))
return not any(set(row) != everything for row in table)
''')
w("v_mg_superset", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
order = rotations.shape[0]
for row in table:
    if not set(range(order)).issubset(row):
        return False
return True
''')
w("v_mg_each", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
order = rotations.shape[0]
for i in range(order):
    for j in range(order):
        if j not in table[i]:
            return False
return True
''')
w("v_mg_count", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
order = rotations.shape[0]
for i in range(order):
    if any(np.count_nonzero(table[i] == j) != 1 for j in range(order)):
        return False
return True
''')
w("v_mg_sortrow", G, "is_matrix_group", '''
try:
    table = get_cayley_table(rotations)
except ValueError:
    return False
order = rotations.shape[0]
for row in table:
    if not np.array_equal(np.sort(row), np.arange(order)):
        return False
return True
''')
w("v_fs_matmul", G, "get_factor_system_from_little_group", '''
kpoint = np.asarray(kpoint)
signs = np.ones(len(little_rotations))
if little_time_reversals is not None:
    signs = np.where(np.asarray(little_time_reversals) == 1, -1, 1)
n = len(little_rotations)
factor_system = np.zeros((n, n), dtype=np.complex_)
for i in range(n):
    residual = little_rotations[i].T @ kpoint - signs[i] * kpoint
    for j in range(n):
        factor_system[i, j] = np.exp(-2j * np.pi * (residual @ little_translations[j]))
return factor_system
''')
w("v_fs_outer", G, "get_factor_system_from_little_group", '''
residuals = []
for i, rotation in enumerate(little_rotations):
    image = rotation.T @ kpoint
    if little_time_reversals is not None and little_time_reversals[i] == 1:
        residuals.append(image + np.asarray(kpoint))
    else:
        residuals.append(image - np.asarray(kpoint))
return np.exp(-2j * np.pi * np.einsum("ia,ja->ij", np.array(residuals), np.array(little_translations)))
''')
w("v_lg_indices", G, "get_little_group", '''
mapping_little_group = []
for i, rotation in enumerate(rotations):
    anti = time_reversals is not None and time_reversals[i] == 1
    image = rotation.T @ kpoint
    residual = image + np.asarray(kpoint) if anti else image - kpoint
    if np.allclose(residual - np.rint(residual), 0, atol=atol):
        mapping_little_group.append(i)
little_rotations = np.array([rotations[i] for i in mapping_little_group])
little_translations = np.array([translations[i] for i in mapping_little_group])
return little_rotations, little_translations, np.array(mapping_little_group)
''')
w("v_lg_max", G, "get_little_group", '''
selected = []
for i, rotation in enumerate(rotations):
    sign = -1 if time_reversals is not None and time_reversals[i] == 1 else 1
    residual = rotation.T @ np.asarray(kpoint) - sign * np.asarray(kpoint)
    deviation = np.abs(residual - np.rint(residual))
    if np.all(deviation <= atol):
        selected.append(i)
return (
    np.array([rotations[i] for i in selected]),
    np.array([translations[i] for i in selected]),
    np.array(selected),
)
''')
w("v_coc_table", G, "check_cocycle_condition", '''
if not is_matrix_group(rotations):
    return False
table = get_cayley_table(rotations)
order = len(rotations)
for i in range(order):
    for j in range(order):
        for k in range(order):
            lhs = factor_system[i, table[j, k]] * factor_system[j, k]
            rhs = factor_system[table[i, j], k] * factor_system[i, j]
            if not np.isclose(lhs, rhs):
                return False
return True
''')
w("v_coc_gen", G, "check_cocycle_condition", '''
if not is_matrix_group(rotations):
    return False
table = get_cayley_table(rotations)
return all(
    np.isclose(factor_system[i, table[j, k]] * factor_system[j, k], factor_system[table[i, j], k] * factor_system[i, j])
    for i, j, k in product(range(len(rotations)), repeat=3)
)
''')
w("v_msg_next", G, "decompose_by_maximal_space_subgroup", '''
antiunitary = [i for i, tr in enumerate(time_reversals) if tr != 0]
if not antiunitary:
    return None
a0_idx = antiunitary[0]
rot0, trans0 = rotations[a0_idx], translations[a0_idx]
xsg_indices = [i for i, tr in enumerate(time_reversals) if tr == 0]
time_reversal_indices = []
for i in xsg_indices:
    new_rot = rotations[i] @ rot0
    new_trans = rotations[i] @ trans0 + translations[i]
    for j in antiunitary:
        diff = new_trans - translations[j]
        diff = diff - np.rint(diff)
        if np.allclose(new_rot, rotations[j]) and np.allclose(diff, 0):
            time_reversal_indices.append(j)
            break
return xsg_indices, time_reversal_indices, a0_idx
''')
# representation
w("v_reg_vec", P, "get_regular_representation", '''
table = get_cayley_table(rotations)
n = len(table)
reg = np.zeros((n, n, n), dtype=int)
for k in range(n):
    reg[k, table[k], np.arange(n)] = 1
return reg
''')
w("v_reg_eq", P, "get_projective_regular_representation", '''
n = len(rotations)
table = get_cayley_table(rotations)
reg = np.zeros((n, n, n), dtype=np.complex_)
for k in range(n):
    for j in range(n):
        i = table[k, j]
        reg[k, i, j] = factor_system[k, j]
return reg
''')
w("v_inter_loop", P, "get_intertwiner", '''
assert rep1.shape == rep2.shape
dim = rep1.shape[1]
rng = np.random.default_rng(0)
for _ in range(max_num_random_generations):
    real_part = rng.random((dim, dim))
    imag_part = rng.random((dim, dim))
    seed_matrix = real_part + 1j * imag_part
    matrix = np.zeros((dim, dim), dtype=np.complex_)
    for d1, d2 in zip(rep1, rep2):
        matrix = matrix + d1 @ seed_matrix @ np.conj(d2).T
    if np.allclose(matrix, 0, atol=atol):
        continue
    return matrix / np.linalg.det(matrix) ** (1 / dim)
warn("Failed to search all irreps. Try increasing max_num_random_generations.")
return np.zeros((dim, dim))
''')
w("v_char_trace", P, "get_character", '''
return np.array([np.trace(matrix) for matrix in representation]).astype(np.complex_)
''')
w("v_char_axis", P, "get_character", '''
return np.trace(representation, axis1=1, axis2=2).astype(np.complex_)
''')
w("v_unit_other", P, "is_unitary", '''
identity = np.eye(representation.shape[1])
return all(np.allclose(matrix @ matrix.conj().T, identity) for matrix in representation)
''')
w("v_isrep_comp", P, "is_representation", '''
order = len(rep)
for i in range(order):
    for j in range(order):
        expect = rep[table[i, j]]
        if factor_system is not None:
            expect = factor_system[i, j] * expect
        if not np.allclose(rep[i] @ rep[j], expect, rtol=rtol, atol=atol):
            return False
return True
''')
w("v_fsi_sq", P, "frobenius_schur_indicator", '''
total = sum(np.trace(matrix @ matrix) for matrix in irrep)
indicator = int(np.around(np.real(total / irrep.shape[0])))
if indicator > 1:
    raise ValueError(f"Given representation is not irreducible: indicator={indicator}")
return indicator
''')
w("v_check_tab", P, "check_spacegroup_representation", '''
order = len(little_rotations)
keys = [ndarray2d_to_integer_tuple(rotation) for rotation in little_rotations]
for i in range(order):
    for j in range(order):
        r12 = little_rotations[i] @ little_rotations[j]
        t12 = little_rotations[i] @ little_translations[j] + little_translations[i]
        k = keys.index(ndarray2d_to_integer_tuple(r12))
        phase = np.exp(-2j * np.pi * np.dot(kpoint, t12 - little_translations[k]))
        if spinor_factor_system is not None:
            phase = spinor_factor_system[i, j] * phase
        if not np.allclose(phase * rep[k], rep[i] @ rep[j], rtol=rtol):
            return False
return True
''')
w("v_direct_kron", P, "get_direct_product", '''
order = len(rep1)
dim1 = rep1.shape[1]
dim2 = rep2.shape[1]
if rep1.shape != (order, dim1, dim1) or rep2.shape != (order, dim2, dim2):
    raise ValueError("Inconsistent shapes.")
return np.array([np.kron(a, b) for a, b in zip(rep1, rep2)])
''')
w("v_direct_einsum", P, "get_direct_product", '''
order, dim1 = rep1.shape[:2]
dim2 = rep2.shape[1]
if rep1.shape != (order, dim1, dim1) or rep2.shape != (order, dim2, dim2):
    raise ValueError("Inconsistent shapes.")
return np.einsum("nik,njl->nijkl", rep1, rep2).reshape(order, dim1 * dim2, dim1 * dim2)
''')
# irreps
w("v_equiv_vdot", I, "is_equivalent_irrep", '''
return bool(np.around(np.vdot(character1, character2)) == character1.shape[0])
''')
w("v_equiv_inner", I, "is_equivalent_irrep", '''
inner = 0
for a, b in zip(character1, character2):
    inner += np.conj(a) * b
return np.around(inner) == len(character1)
''')
w("v_purify_where", I, "purify_irrep_value", '''
roots = [0] + [1, np.exp(1j * np.pi / 3), 1j, np.exp(2j * np.pi / 3), -1, np.exp(4j * np.pi / 3), -1j, np.exp(5j * np.pi / 3)]
for value in roots:
    close = np.abs(irrep - value) < atol
    irrep[close] = value
return irrep
''')
w("v_purify_real", I, "purify_real_irrep_value", '''
half_sqrt3 = np.sqrt(3) / 2
for value in [0, 1, 0.5, half_sqrt3, -0.5, -half_sqrt3, -1]:
    close = np.abs(real_irrep - value) < atol
    real_irrep[close] = value
return real_irrep
''')
w("v_phys_blocks", I, "get_physically_irrep", '''
if indicator == 1:
    U = get_intertwiner(irrep, np.conj(irrep), atol=atol, max_num_random_generations=max_num_random_generations)
    _, S = np.linalg.eigh(np.cos(1) * U.real + np.sin(1) * U.imag)
    roots = [nroot(eigval, 2) for eigval in np.diag(S.T @ U @ S)]
    T = S @ np.diag(roots) @ S.T
    real_irrep = np.array([np.real(np.conj(T).T @ matrix @ T) for matrix in irrep])
elif indicator in [-1, 0]:
    re, im = np.real(irrep), np.imag(irrep)
    upper = np.concatenate([re, im], axis=2)
    lower = np.concatenate([-im, re], axis=2)
    real_irrep = np.concatenate([upper, lower], axis=1)
return real_irrep
''')
# spinor
w("v_spin_fs", S, "get_spinor_factor_system", '''
unitary_rotations = np.array([get_spinor_unitary_rotation(lattice, rotation) for rotation in rotations])
order = len(rotations)
table = get_cayley_table(rotations)
spinor_factor_system = np.zeros((order, order), dtype=np.complex_)
for i in range(order):
    for j in range(order):
        reference = unitary_rotations[table[i, j]]
        overlap = np.sum(unitary_rotations[i] @ unitary_rotations[j] * np.conj(reference)).real
        spinor_factor_system[i, j] = 1 if overlap > 0 else -1
return spinor_factor_system, unitary_rotations
''')
w("v_spin_rot", S, "get_spinor_unitary_rotation", '''
proper_rotation = rotation if np.linalg.det(rotation) > 0 else -rotation
basis = lattice.T
theta, (nx, ny, nz) = get_rotation_angle_and_axis(basis @ proper_rotation @ np.linalg.inv(basis))
c, s = np.cos(theta / 2), np.sin(theta / 2)
return np.array([[c - 1j * nz * s, (-1j * nx - ny) * s], [(-1j * nx + ny) * s, c + 1j * nz * s]])
''')
w("v_spin_pauli", S, "get_spinor_unitary_rotation", '''
sign = 1 if np.linalg.det(rotation) > 0 else -1
cart_rotation = lattice.T @ (sign * rotation) @ np.linalg.inv(lattice.T)
theta, axis = get_rotation_angle_and_axis(cart_rotation)
sigma_x = np.array([[0, 1], [1, 0]])
sigma_y = np.array([[0, -1j], [1j, 0]])
sigma_z = np.array([[1, 0], [0, -1]])
sigma = axis[0] * sigma_x + axis[1] * sigma_y + axis[2] * sigma_z
return np.cos(0.5 * theta) * np.eye(2) - 1j * np.sin(0.5 * theta) * sigma
''')
# transform
w("v_tr_comp", T, "transform_symmetry_and_kpoint", '''
inverse = np.linalg.inv(transformation_matrix)
new_rotations = []
new_translations = []
for rotation, translation in zip(rotations, translations):
    new_rotations.append(np.around(inverse @ rotation @ transformation_matrix).astype(int))
    new_translations.append(inverse @ translation)
return np.array(new_rotations), np.array(new_translations), transformation_matrix.T @ kpoint
''')
w("v_tr_dot", T, "transform_symmetry_and_kpoint", '''
pinv = np.linalg.inv(transformation_matrix)
transformed_rotations = np.rint(np.einsum("ij,njk,kl->nil", pinv, rotations, transformation_matrix)).astype(int)
transformed_translations = np.einsum("ij,nj->ni", pinv, translations)
transformed_kpoint = np.dot(kpoint, transformation_matrix)
return transformed_rotations, transformed_translations, transformed_kpoint
''')
w("v_uq_dict", T, "unique_primitive_symmetry", '''
position = {}
unique_rotations = []
unique_translations = []
mapping = []
for i in range(len(rotations)):
    key = ndarray2d_to_integer_tuple(rotations[i])
    if time_reversals is not None:
        key = (key, bool(time_reversals[i]))
    if key not in position:
        position[key] = len(unique_rotations)
        unique_rotations.append(rotations[i])
        unique_translations.append(np.remainder(translations[i], 1))
    mapping.append(position[key])
return np.array(unique_rotations), np.array(unique_translations), mapping
''')
w("v_cen_pop", T, "get_centering", '''
return hall_symbol.lstrip("-")[0]
''')
w("v_cen_sw", T, "get_centering", '''
return hall_symbol[1] if hall_symbol.startswith("-") else hall_symbol[0]
''')
w("v_cen_slice", T, "get_centering", '''
symbol = hall_symbol[1:] if hall_symbol[:1] == "-" else hall_symbol
return symbol[0]
''')
w("v_crys_chain", T, "get_crystal_system", '''
if not 1 <= hall_number <= 530:
    raise ValueError("Unknown Hall number: {}".format(hall_number))
if hall_number <= 2:
    return "triclinic"
if hall_number <= 107:
    return "monoclinic"
if hall_number <= 348:
    return "orthorhombic"
if hall_number <= 429:
    return "tetragonal"
if hall_number <= 461:
    return "trigonal"
if hall_number <= 488:
    return "hexagonal"
return "cubic"
''')
w("v_crys_bounds", T, "get_crystal_system", '''
upper_bounds = [
    (2, "triclinic"),
    (107, "monoclinic"),
    (348, "orthorhombic"),
    (429, "tetragonal"),
    (461, "trigonal"),
    (488, "hexagonal"),
    (530, "cubic"),
]
if hall_number >= 1:
    for upper, name in upper_bounds:
        if hall_number <= upper:
            return name
raise ValueError("Unknown Hall number: {}".format(hall_number))
''')
# tensor
w("v_sym_mean", X, "apply_intrinsic_symmetry", '''
kept = []
for tensor in tensors:
    coeff = tensor / np.linalg.norm(tensor)
    sym_tensor = np.zeros_like(tensor)
    for perm in permutations(range(coeff.ndim)):
        sym_tensor = sym_tensor + np.transpose(coeff, perm)
    if np.allclose(sym_tensor, 0, atol=atol):
        continue
    row = (sym_tensor / np.linalg.norm(sym_tensor)).reshape(1, -1)
    if kept and grassmann_distance(row, np.concatenate(kept, axis=0)) < 0.5:
        continue
    kept.append(row)
return [row.reshape(tensors[0].shape) for row in kept]
''')
if __name__ == "__main__":
    M.main(R, sys.argv[1:])
