"""Evaluation aid (not a check): second round of hand-written behaviour-preserving rewrites of whole functions."""
import ast, os, sys, textwrap
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
R = []
SRCS = {}

SUBS = []


def f(id, file, name, code, *subs):
    """Replace function `name` by `code` (helpers may come with it); `code` None: textual substitutions within it."""
    if file not in SRCS:
        SRCS[file] = open(M.SRC + "/" + file).read()
    s = SRCS[file]
    fd = next(n for n in ast.parse(s).body if isinstance(n, ast.FunctionDef) and n.name == name)
    seg = ast.get_source_segment(s, fd)
    if code is None:
        SUBS.append((id, file, name, subs))
        # work on the unparsed text without docstring: one canonical layout
        if isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant):
            fd.body = fd.body[1:]
        code = ast.unparse(fd)
        for o, n in subs:
            if o not in code:
                print("NOMATCH", id, o[:70]); return
            code = code.replace(o, n, 1)
    else:
        # keep the original header
        h = seg[: seg.index(":\n", seg.index(") ->") if ") ->" in seg else 0) + 2]
        code = textwrap.dedent(code).strip("\n") + "\n"
        if "HEADER" in code:
            code = code.replace("HEADER\n", h, 1)
    R.append((id, file, ((seg, code),)))

# ---------------------------------------------------------------- group.py
f("cay_dict_lookup", "group.py", "get_cayley_table", None,
  ("operations_list = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]\n", "operations_list = []\n    for r, tr in zip(rotations, time_reversals):\n        operations_list.append((ndarray2d_to_integer_tuple(r), tr))\n"))
f("cay_index_loops", "group.py", "get_cayley_table", '''
HEADER
    order = len(rotations)
    if time_reversals is None:
        time_reversals = np.zeros(order, dtype=np.int_)
    keys = [(ndarray2d_to_integer_tuple(rotations[i]), time_reversals[i]) for i in range(order)]
    table = [[-1] * order for _ in range(order)]
    for i in range(order):
        for j in range(order):
            product_key = (
                ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]),
                time_reversals[i] != time_reversals[j],
            )
            k = keys.index(product_key)
            if table[i][j] != -1:
                raise ValueError("Should specify a matrix group.")
            table[i][j] = k
    return np.array(table)
''')
f("cay_helper", "group.py", "get_cayley_table", '''
def _operation_key(rotation, time_reversal):
    return (ndarray2d_to_integer_tuple(rotation), time_reversal)


HEADER
    order = rotations.shape[0]
    if time_reversals is None:
        time_reversals = np.zeros((order,), dtype=np.int_)
    operations_list = [_operation_key(r, tr) for r, tr in zip(rotations, time_reversals)]
    table = [[-1 for _ in range(order)] for _ in range(order)]
    for i, (ri, tri) in enumerate(zip(rotations, time_reversals)):
        for j, (rj, trj) in enumerate(zip(rotations, time_reversals)):
            k = operations_list.index(_operation_key(ri @ rj, tri != trj))
            if table[i][j] != -1:
                raise ValueError("Should specify a matrix group.")
            table[i][j] = k
    return np.array(table)
''')
f("ident_flatnonzero", "group.py", "get_identity_index", '''
HEADER
    order = table.shape[0]
    expected = np.arange(order)
    for i, row in enumerate(table):
        if np.array_equal(row, expected):
            return i
    raise ValueError("Unreachable!")
''')
f("ident_while", "group.py", "get_identity_index", '''
HEADER
    order = table.shape[0]
    i = 0
    while i < order:
        if np.all(table[i] == np.arange(order)):
            return i
        i += 1
    raise ValueError("Unreachable!")
''')
f("ident_all_gen", "group.py", "get_identity_index", '''
HEADER
    order = table.shape[0]
    for i in range(order):
        if all(table[i, j] == j for j in range(order)):
            return i
    raise ValueError("Unreachable!")
''')
f("inv_enumerate", "group.py", "get_inverse_index", '''
HEADER
    id_idx = get_identity_index(table)
    for i, product_idx in enumerate(table[idx]):
        if product_idx == id_idx:
            return i
    raise ValueError("Unreachable!")
''')
f("order_true_loop", "group.py", "get_order", '''
HEADER
    identity = get_identity_index(table)
    count = 1
    power = idx
    while True:
        if power == identity:
            return count
        power = table[power, idx]
        count += 1
''')
f("order_swap_stmts", "group.py", "get_order", None, ("tmp = table[tmp, idx]\n        ret += 1", "ret += 1\n        tmp = table[tmp, idx]"))
f("ismg_flag", "group.py", "is_matrix_group", '''
HEADER
    try:
        table = get_cayley_table(rotations)
    except ValueError:
        return False

    expected = set(range(rotations.shape[0]))
    ret = True
    for row in table:
        if set(row) != expected:
            ret = False
            break
    return ret
''')
f("ismg_len", "group.py", "is_matrix_group", '''
HEADER
    order = rotations.shape[0]
    try:
        table = get_cayley_table(rotations)
    except ValueError:
        return False
    return all(set(row) == set(range(order)) for row in table)
''')
f("ismg_sorted", "group.py", "is_matrix_group", None, ("set(table[i]) != set(range(order))", "sorted(table[i]) != list(range(order))"))
f("fs_outer", "group.py", "get_factor_system_from_little_group", None,
  ("""    for i, residual in enumerate(residuals):
        for j, translation in enumerate(little_translations):
            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))
    return factor_system""", """    for i in range(n):
        for j in range(n):
            phase = np.dot(residuals[i], little_translations[j])
            factor_system[i, j] = np.exp(-2j * np.pi * phase)
    return factor_system"""))
f("fs_vector", "group.py", "get_factor_system_from_little_group", None,
  ("""    factor_system = np.zeros((n, n), dtype=np.complex_)
    for i, residual in enumerate(residuals):
        for j, translation in enumerate(little_translations):
            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))
    return factor_system""", """    return np.exp(-2j * np.pi * (residuals @ np.asarray(little_translations).T))"""))
f("fs_sign", "group.py", "get_factor_system_from_little_group", None,
  ("""        residuals[i] = rotation.T @ kpoint - kpoint
        if little_time_reversals is not None and little_time_reversals[i] == 1:
            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)
""", """        rotated = rotation.T @ kpoint
        anti_unitary = little_time_reversals is not None and little_time_reversals[i] == 1
        residuals[i] = rotated + np.asarray(kpoint) if anti_unitary else rotated - kpoint
"""))
f("fs_kT", "group.py", "get_factor_system_from_little_group", None, ("rotation.T @ kpoint - kpoint", "np.dot(kpoint, rotation) - kpoint"), ("rotation.T @ kpoint + np", "np.dot(kpoint, rotation) + np"))
f("fs_helper", "group.py", "get_factor_system_from_little_group", '''
def _residual(rotation, kpoint, time_reversal):
    rotated = rotation.T @ kpoint
    if time_reversal:
        return rotated + np.asarray(kpoint)
    return rotated - kpoint


HEADER
    n = len(little_rotations)
    residuals = np.zeros((n, 3))
    for i, rotation in enumerate(little_rotations):
        time_reversal = little_time_reversals is not None and little_time_reversals[i] == 1
        residuals[i] = _residual(rotation, kpoint, time_reversal)

    factor_system = np.zeros((n, n), dtype=np.complex_)
    for i, residual in enumerate(residuals):
        for j, translation in enumerate(little_translations):
            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))
    return factor_system
''')
f("lg_mask", "group.py", "get_little_group", None,
  ("""        if not np.allclose(residual, 0, atol=atol):
            continue
        little_rotations.append(rotation)
        little_translations.append(translation)
        mapping_little_group.append(i)
""", """        if np.allclose(residual, 0, atol=atol):
            mapping_little_group.append(i)
            little_rotations.append(rotation)
            little_translations.append(translation)
"""))
f("lg_after", "group.py", "get_little_group", '''
HEADER
    mapping_little_group = []
    for i, rotation in enumerate(rotations):
        if time_reversals is not None and time_reversals[i] == 1:
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        else:
            residual = rotation.T @ kpoint - kpoint
        residual = residual - np.rint(residual)
        if np.allclose(residual, 0, atol=atol):
            mapping_little_group.append(i)

    little_rotations = [rotations[i] for i in mapping_little_group]
    little_translations = [translations[i] for i in mapping_little_group]
    return np.array(little_rotations), np.array(little_translations), np.array(mapping_little_group)
''')
f("lg_aug", "group.py", "get_little_group", None, ("residual = residual - np.rint(residual)", "residual -= np.rint(residual)"))
f("lg_absall", "group.py", "get_little_group", None, ("if not np.allclose(residual, 0, atol=atol):", "if not np.all(np.abs(residual) <= atol):"))
f("lg_predicate", "group.py", "get_little_group", '''
HEADER
    def _preserves_kpoint(i):
        rotated = rotations[i].T @ kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            residual = rotated + np.asarray(kpoint)
        else:
            residual = rotated - kpoint
        return np.allclose(residual - np.rint(residual), 0, atol=atol)

    indices = [i for i in range(len(rotations)) if _preserves_kpoint(i)]
    return (
        np.array([rotations[i] for i in indices]),
        np.array([translations[i] for i in indices]),
        np.array(indices),
    )
''')
f("coc_triple", "group.py", "check_cocycle_condition", None,
  ("    for i, j, k in product(range(len(rotations)), repeat=3):\n", "    order = len(rotations)\n    for i, j, k in product(range(order), range(order), range(order)):\n"))
f("coc_names", "group.py", "check_cocycle_condition", None,
  ("        if not np.isclose(factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]):\n            return False",
   "        lhs = factor_system[i, jk] * factor_system[j, k]\n        rhs = factor_system[i, j] * factor_system[ij, k]\n        if not np.isclose(lhs, rhs):\n            return False"))
f("coc_all", "group.py", "check_cocycle_condition", '''
HEADER
    if not is_matrix_group(rotations):
        return False
    keys = [ndarray2d_to_integer_tuple(r) for r in rotations]

    def _index(a, b):
        return keys.index(ndarray2d_to_integer_tuple(rotations[a] @ rotations[b]))

    return all(
        np.isclose(
            factor_system[i, _index(j, k)] * factor_system[j, k],
            factor_system[_index(i, j), k] * factor_system[i, j],
        )
        for i, j, k in product(range(len(rotations)), repeat=3)
    )
''')
f("msg_enum", "group.py", "decompose_by_maximal_space_subgroup", None,
  ("""    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):
        if tr == 0:
            continue
        conjugator_rotation = rot.copy()
        conjugator_translation = trans.copy()
        a0_idx = i
        break
""", """    for i, tr in enumerate(time_reversals):
        if tr != 0:
            conjugator_rotation = rotations[i].copy()
            conjugator_translation = translations[i].copy()
            a0_idx = i
            break
"""))
f("msg_argmax", "group.py", "decompose_by_maximal_space_subgroup", None,
  ("""    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):
        if tr == 0:
            continue
        conjugator_rotation = rot.copy()
        conjugator_translation = trans.copy()
        a0_idx = i
        break
""", """    a0_idx = int(np.nonzero(time_reversals)[0][0])
    conjugator_rotation = rotations[a0_idx]
    conjugator_translation = translations[a0_idx]
"""))
f("msg_inner_and", "group.py", "decompose_by_maximal_space_subgroup", None,
  ("""            if time_reversals[j] == 0:
                continue
            if not np.allclose(new_rot, rotations[j]):
                continue
            diff""", """            if time_reversals[j] == 0 or not np.allclose(new_rot, rotations[j]):
                continue
            diff"""))
f("msg_rint", "group.py", "decompose_by_maximal_space_subgroup", None,
  ("""            diff = np.remainder(new_trans - translations[j], 1)
            diff -= np.rint(diff)
""", """            diff = new_trans - translations[j]
            diff -= np.rint(diff)
"""))
f("msg_xsg_comp", "group.py", "decompose_by_maximal_space_subgroup", None,
  ("    xsg_indices: list[int] = list(np.arange(order)[time_reversals == 0])\n", "    xsg_indices = [i for i in range(order) if time_reversals[i] == 0]\n"))
# ---------------------------------------------------------------- utils.py
f("utl_int_rint", "utils.py", "is_integer_array", None, ("np.around(array)", "np.rint(array)"))
f("utl_prime_while", "utils.py", "is_prime", '''
HEADER
    if n < 2:
        return False
    divisor = 2
    while divisor < n:
        if n % divisor == 0:
            return False
        divisor += 1
    return True
''')
f("utl_prime_flag", "utils.py", "is_prime", '''
HEADER
    if n < 2:
        return False
    ret = True
    for i in range(2, n):
        if not n % i:
            ret = False
            break
    return ret
''')
f("utl_nroot_polar", "utils.py", "nroot", None, ("np.absolute(root)", "abs(root)"), ("angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n", "step = 2 * np.pi / n\n    angle = angle - np.rint(angle / step) * step"))
f("utl_grass_branch", "utils.py", "grassmann_distance", None, ("    if skip_orthonormalization:\n        col_orthonormal_basis1 = basis1.T\n        col_orthonormal_basis2 = basis2.T\n    else:\n        col_orthonormal_basis1 = np.linalg.qr(np.transpose(basis1))[0]\n        col_orthonormal_basis2 = np.linalg.qr(np.transpose(basis2))[0]\n",
  "    col_orthonormal_basis1 = np.transpose(basis1)\n    col_orthonormal_basis2 = np.transpose(basis2)\n    if not skip_orthonormalization:\n        col_orthonormal_basis1, _ = np.linalg.qr(col_orthonormal_basis1)\n        col_orthonormal_basis2, _ = np.linalg.qr(col_orthonormal_basis2)\n"))
f("utl_grass_conjT", "utils.py", "grassmann_distance", None, ("np.conj(col_orthonormal_basis1.T) @", "col_orthonormal_basis1.conj().T @"))
f("utl_grass_early", "utils.py", "grassmann_distance", '''
HEADER
    if ord not in ("min", "projection"):
        raise ValueError(f"Unknown type of Grassmann distance: {ord}")

    if skip_orthonormalization:
        q1, q2 = basis1.T, basis2.T
    else:
        q1 = np.linalg.qr(np.transpose(basis1))[0]
        q2 = np.linalg.qr(np.transpose(basis2))[0]
    correlations = np.linalg.svd(np.conj(q1.T) @ q2, compute_uv=False)

    dim = min(basis1.shape[0], basis2.shape[0])
    if ord == "min":
        return np.sqrt(np.clip(1 - correlations[dim - 1] ** 2, a_min=0, a_max=None))
    angles = np.arccos(np.clip(correlations[:dim], a_min=-1, a_max=1))
    return np.sqrt(np.mean(angles**2))
''')
f("utl_mode_unroll", "utils.py", "mode_dot", None, ("    for axis in range(len(list_matrix)):\n        ret = _mode_dot(ret, list_matrix[axis], axis)\n", "    for axis, matrix in enumerate(list_matrix):\n        ret = _mode_dot(ret, matrix, axis)\n"))
# ---------------------------------------------------------------- transform.py
f("tr_rename", "transform.py", "transform_symmetry_and_kpoint", '''
HEADER
    pinv = np.linalg.inv(transformation_matrix)
    new_rotations = []
    new_translations = []
    for rotation, translation in zip(rotations, translations):
        new_rotations.append(pinv @ rotation @ transformation_matrix)
        new_translations.append(pinv @ translation)
    new_rotations = np.around(np.array(new_rotations)).astype(int)
    return new_rotations, np.array(new_translations), transformation_matrix.T @ kpoint
''')
f("tr_round_each", "transform.py", "transform_symmetry_and_kpoint", '''
HEADER
    pinv = np.linalg.inv(transformation_matrix)
    transformed_rotations = np.array(
        [np.around(pinv @ rotation @ transformation_matrix).astype(int) for rotation in rotations]
    )
    transformed_translations = np.array([np.dot(pinv, translation) for translation in translations])
    transformed_kpoint = np.dot(kpoint, transformation_matrix)
    return transformed_rotations, transformed_translations, transformed_kpoint
''')
f("tr_einsum", "transform.py", "transform_symmetry_and_kpoint", '''
HEADER
    pinv = np.linalg.inv(transformation_matrix)
    transformed_rotations = np.around(pinv @ np.asarray(rotations) @ transformation_matrix).astype(int)
    transformed_translations = np.asarray(translations) @ pinv.T
    transformed_kpoint = transformation_matrix.T @ kpoint
    return transformed_rotations, transformed_translations, transformed_kpoint
''')
f("uq_in_list", "transform.py", "unique_primitive_symmetry", '''
HEADER
    known = []
    unique_rotations = []
    unique_translations = []
    mapping = []
    for i in range(len(rotations)):
        key = ndarray2d_to_integer_tuple(rotations[i])
        if time_reversals is not None:
            key = (key, bool(time_reversals[i]))
        if key not in known:
            known.append(key)
            unique_rotations.append(rotations[i])
            unique_translations.append(np.remainder(translations[i], 1))
        mapping.append(known.index(key))
    return np.array(unique_rotations), np.array(unique_translations), mapping
''')
f("uq_lenknown", "transform.py", "unique_primitive_symmetry", None,
  ("mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1", "mapping_to_primitive_symmetry[i] = len(rotations_int)"))
f("uq_mod", "transform.py", "unique_primitive_symmetry", None, ("np.remainder(translation, 1)", "translation % 1"))
f("uq_order", "transform.py", "unique_primitive_symmetry", None, ("            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n            rotations_int.append(rotation_int)\n",
 "            mapping_to_primitive_symmetry[i] = len(unique_rotations)\n            rotations_int.append(rotation_int)\n            unique_translations.append(np.remainder(translation, 1))\n            unique_rotations.append(rotation)\n"))
f("uq_trlist", "transform.py", "unique_primitive_symmetry", '''
HEADER
    order = len(rotations)
    operations = []
    for i in range(order):
        operation = ndarray2d_to_integer_tuple(rotations[i])
        if time_reversals is not None:
            operation = (operation, bool(time_reversals[i]))
        operations.append(operation)

    seen = []
    unique_rotations = []
    unique_translations = []
    mapping_to_primitive_symmetry = [-1] * order
    for i, operation in enumerate(operations):
        if operation in seen:
            mapping_to_primitive_symmetry[i] = seen.index(operation)
        else:
            unique_rotations.append(rotations[i])
            unique_translations.append(np.remainder(translations[i], 1))
            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
            seen.append(operation)
    return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
''')
f("cen_table", "transform.py", "get_primitive_transformation_matrix", None, ("    if centering == 'P':\n        return np.eye(3)\n    elif centering == 'A'", "    if centering == 'P':\n        return np.eye(3)\n    if centering == 'A'"))
f("cen_trig_split", "transform.py", "get_primitive_transformation_matrix", None, ("    spacegroup_type = get_spacegroup_type(hall_number)\n    if crystal_system == 'trigonal':", "    is_trigonal = crystal_system == 'trigonal'\n    spacegroup_type = get_spacegroup_type(hall_number)\n    if is_trigonal:"),
  ("elif choice in ['', 'R']", "elif choice == '' or choice == 'R'"))
f("cen_dictmap", "transform.py", "get_primitive_transformation_matrix", '''
_HEXAGONAL_TO_RHOMBOHEDRAL = [[2 / 3, -1 / 3, -1 / 3], [1 / 3, 1 / 3, -2 / 3], [1 / 3, 1 / 3, 1 / 3]]
_PRIMITIVE = {
    "P": [[1.0, 0, 0], [0, 1, 0], [0, 0, 1]],
    "A": [[1, 0, 0], [0, 1 / 2, -1 / 2], [0, 1 / 2, 1 / 2]],
    "B": [[1 / 2, 0, -1 / 2], [0, 1, 0], [1 / 2, 0, 1 / 2]],
    "C": [[1 / 2, 1 / 2, 0], [-1 / 2, 1 / 2, 0], [0, 0, 1]],
    "I": [[-1 / 2, 1 / 2, 1 / 2], [1 / 2, -1 / 2, 1 / 2], [1 / 2, 1 / 2, -1 / 2]],
    "F": [[0, 1 / 2, 1 / 2], [1 / 2, 0, 1 / 2], [1 / 2, 1 / 2, 0]],
}


HEADER
    crystal_system = get_crystal_system(hall_number)
    spacegroup_type = get_spacegroup_type(hall_number)

    if crystal_system == "trigonal":
        choice = spacegroup_type["choice"]
        if choice == "H":
            return np.array(_HEXAGONAL_TO_RHOMBOHEDRAL)
        if choice in ("", "R"):
            return np.eye(3)
        raise ValueError("Unreachable!")

    centering = get_centering(spacegroup_type["hall_symbol"])
    if centering not in _PRIMITIVE:
        raise ValueError("Unreachable!")
    return np.array(_PRIMITIVE[centering])
''')
f("cry_tuple", "transform.py", "get_crystal_system", None, ("if lb <= hall_number and hall_number <= ub:", "if lb <= hall_number <= ub:"))
f("cry_items", "transform.py", "get_crystal_system", None, ("    for csystem, (lb, ub) in crystal_system_range.items():\n        if lb <= hall_number and hall_number <= ub:\n            return csystem\n", "    for csystem in crystal_system_range:\n        lb, ub = crystal_system_range[csystem]\n        if hall_number < lb or hall_number > ub:\n            continue\n        return csystem\n"))
f("gcen_lstrip", "transform.py", "get_centering", None, ("    if hall_symbol[0] == '-':\n        return hall_symbol[1]\n    else:\n        return hall_symbol[0]", "    start = 1 if hall_symbol[0] == '-' else 0\n    return hall_symbol[start]"))
f("gcen_startswith", "transform.py", "get_centering", None, ("hall_symbol[0] == '-'", "hall_symbol.startswith('-')"))
# ---------------------------------------------------------------- pointgroup.py
f("pgg_loop", "pointgroup.py", "get_generators", '''
def get_generators(pg_symbol, idx):
    gens = []
    while pg_symbol != "1":
        (pg_symbol, idx), generator = pg_solvable_chain[pg_symbol][idx]
        gens.append(generator)
    return gens
''')
f("pgc_forelse", "pointgroup.py", "get_pointgroup_chain_generators", '''
HEADER
    pg_symbol, _, P = get_pointgroup(prim_rotations)
    Pinv = np.linalg.inv(P)
    matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]

    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
        mapping = []
        for ri in std_rotations:
            if ri not in matched:
                break
            mapping.append(matched.index(ri))
        else:
            return [mapping[g] for g in get_generators(pg_symbol, idx)]

    raise ValueError("Failed to match with tabulated point groups.")
''')
f("pgc_helper", "pointgroup.py", "get_pointgroup_chain_generators", '''
def _match_rotations(std_rotations, matched, order):
    mapping = [-1 for _ in range(order)]
    for i, ri in enumerate(std_rotations):
        try:
            mapping[i] = matched.index(ri)
        except ValueError:
            return None
    return mapping


HEADER
    pg_symbol, _, P = get_pointgroup(prim_rotations)
    Pinv = np.linalg.inv(P)
    order = len(prim_rotations)
    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]
        mapping = _match_rotations(std_rotations, matched, order)
        if mapping is not None:
            return [mapping[g] for g in get_generators(pg_symbol, idx)]
    raise ValueError("Failed to match with tabulated point groups.")
''')
#MAIN
if __name__ == "__main__":
    M.main(R, sys.argv[1:])
