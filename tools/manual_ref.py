"""Hand-written behaviour-preserving rewrites; every verdict must be EQ or UND (never DIFF)."""
import ast, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("SRC", "/repo/src/spgrep")
R = []
def r(id, file, *pairs):
    R.append((id, file, pairs))

# ---------------- core
r("core_early_none", "core.py", ("""        if idx_prim_little is None:
            continue

        mapping_little_group.append(i)
        mapping_conv_to_prim_little_group.append(idx_prim_little)
        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])
""", """        if idx_prim_little is not None:
            mapping_little_group.append(i)
            mapping_conv_to_prim_little_group.append(idx_prim_little)
            shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])
"""))
r("core_dictcomp", "core.py", ("""    remapping_prim_little_group = {}  # [0..order) -> [0..prim_little_group_order)
    for i, idx in enumerate(mapping_prim_little_group):
        remapping_prim_little_group[idx] = i
""", """    # [0..order) -> [0..prim_little_group_order)
    remapping_prim_little_group = {idx: i for i, idx in enumerate(mapping_prim_little_group)}
"""))
r("core_enumerate", "core.py", ("""    for i in range(len(mapping_to_prim)):
        idx_prim = mapping_to_prim[i]  # in [0..order)
""", """    for i, idx_prim in enumerate(mapping_to_prim):
"""))
r("core_contains", "core.py", ("""        idx_prim_little = remapping_prim_little_group.get(
            idx_prim
        )  # in [0..prim_little_group_order)
        if idx_prim_little is None:
            continue
""", """        if idx_prim not in remapping_prim_little_group:
            continue
        idx_prim_little = remapping_prim_little_group[idx_prim]
"""))
r("core_phase_vec", "core.py", ("""    phases = np.array([np.exp(-2j * np.pi * np.dot(prim_kpoint, shift)) for shift in shifts])
""", """    phases = np.exp(-2j * np.pi * np.dot(np.array(shifts), prim_kpoint))
"""))
r("core_irreps_comp", "core.py", ("""    irreps = []
    for prim_irrep in prim_irreps:
        # prim_irrep: (little_group_order, dim, dim)
        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]
        irrep = purify_irrep_value(irrep, atol=atol)

        irreps.append(irrep)
    return irreps, np.array""", """    irreps = [
        purify_irrep_value(
            prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None], atol=atol
        )
        for prim_irrep in prim_irreps
    ]
    return irreps, np.array"""))
r("core_helper_kpoint", "core.py", ("""def get_spacegroup_irreps(
""", """def _to_dual_kpoint(lattice, kpoint, reciprocal_lattice):
    dual_lattice = np.linalg.inv(lattice).T
    if reciprocal_lattice is None:
        reciprocal_lattice = dual_lattice
    return kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)


def get_spacegroup_irreps(
"""), ("""    # Transform given `kpoint` in dual of `lattice`
    dual_lattice = np.linalg.inv(lattice).T
    if reciprocal_lattice is None:
        reciprocal_lattice = dual_lattice
    # kpoint @ reciprocal_lattice == kpoint_conv @ dual_lattice
    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)

    dataset = get""", """    kpoint_conv = _to_dual_kpoint(lattice, kpoint, reciprocal_lattice)

    dataset = get"""))
r("core_dual_latticeT", "core.py", ("""    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)

    dataset = get""", """    kpoint_conv = kpoint @ reciprocal_lattice @ lattice.T

    dataset = get"""))
r("core_solve", "core.py", ("""    to_primitive = np.linalg.inv(
        dataset["transformation_matrix"]
    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
    prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
        to_primitive, rotations, translations, kpoint_conv
    )
    # mapping_to_prim""", """    to_primitive = np.linalg.solve(
        dataset["transformation_matrix"], get_primitive_transformation_matrix(dataset["hall_number"])
    )
    prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
        to_primitive, rotations, translations, kpoint_conv
    )
    # mapping_to_prim"""))
r("core_sanity_helper", "core.py", ("""def get_spacegroup_irreps_from_primitive_symmetry(
""", """def _is_pure_translation(rotation, translation, rtol, atol):
    is_identity = np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol)
    is_shifted = not np.allclose(translation, 0, atol=atol)
    return is_identity and is_shifted


def get_spacegroup_irreps_from_primitive_symmetry(
"""), ("""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            translation, 0, atol=atol
        ):
            raise ValueError""", """    for rotation, translation in zip(rotations, translations):
        if _is_pure_translation(rotation, translation, rtol, atol):
            raise ValueError"""))
r("core_sanity_any", "core.py", ("""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            translation, 0, atol=atol
        ):
            raise ValueError("Specify symmetry operations in primitive cell!")
""", """    if any(
        np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol)
        and not np.allclose(translation, 0, atol=atol)
        for rotation, translation in zip(rotations, translations)
    ):
        raise ValueError("Specify symmetry operations in primitive cell!")
"""))
r("core_sanity_tr", "core.py", ("""        if time_reversals is not None and time_reversals[i] == 1:
            continue  # Anti-translation of type-IV is not a lattice translation
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            translation, 0, atol=atol
        ):
            raise""", """        is_unitary = time_reversals is None or time_reversals[i] != 1
        is_identity = np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol)
        if is_unitary and is_identity and not np.allclose(translation, 0, atol=atol):
            raise"""))
r("core_spinor_else_flat", "core.py", ("""    else:
        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]
        return (
            irreps,
            little_spinor_factor_system,
            little_unitary_rotations,
            little_anti_linear,
            rotations,
            translations,
            time_reversals,
            mapping_little_group,
        )
""", """
    return (
        irreps,
        little_spinor_factor_system,
        little_unitary_rotations,
        little_anti_linear[mapping_conv_to_prim_little_group],
        rotations,
        translations,
        time_reversals,
        mapping_little_group,
    )
"""))
r("core_fs_two_step", "core.py", ("""    little_spinor_factor_system = little_spinor_factor_system[
        np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)
    ]
""", """    little_spinor_factor_system = little_spinor_factor_system[mapping_conv_to_prim_little_group][
        :, mapping_conv_to_prim_little_group
    ]
"""))
r("core_pg_order", "core.py", ("""        order = len(rotations)
        (
            irreps,
            indicators,
            factor_system,
            unitary_rotations,
            anti_linear,
        ) = enumerate_spinor_small_corepresentations(
            lattice,
            little_rotations=rotations,
            little_translations=np.zeros((order, 3)),
            little_time_reversals=time_reversals,
            kpoint=np.zeros(3),
            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        return irreps, indicators, factor_system, unitary_rotations, anti_linear
""", """        zero_translations = np.zeros((len(rotations), 3))
        return enumerate_spinor_small_corepresentations(
            lattice,
            rotations,
            zero_translations,
            time_reversals,
            np.zeros(3),
            method,
            rtol,
            atol,
            max_num_random_generations,
        )
"""))
r("core_trs_loop", "core.py", ("""        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
""", """        for i, idx_prim in enumerate(mapping_to_prim):
            uniq_prim_time_reversals[idx_prim] = time_reversals[i]
"""))
# ---------------- group
r("grp_residual_if", "group.py", ("""        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
        if not np.allclose(residual, 0, atol=atol):
            continue
        little_rotations.append(rotation)
        little_translations.append(translation)
        mapping_little_group.append(i)
""", """        if time_reversals is not None and time_reversals[i] == 1:
            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        else:
            residual = rotation.T @ kpoint - kpoint
        residual -= np.rint(residual)
        if np.allclose(residual, 0, atol=atol):
            little_rotations.append(rotation)
            little_translations.append(translation)
            mapping_little_group.append(i)
"""))
r("grp_residual_kR", "group.py", ("""        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
""", """        sign = 1
        if time_reversals is not None and time_reversals[i] == 1:
            sign = -1  # Time reversal inverts kpoint
        residual = kpoint @ rotation - sign * np.asarray(kpoint)
        residual = residual - np.rint(residual)
"""))
r("grp_mapping_after", "group.py", ("""        little_rotations.append(rotation)
        little_translations.append(translation)
        mapping_little_group.append(i)

    return (
        np.array(little_rotations),
        np.array(little_translations),
        np.array(mapping_little_group),
    )
""", """        mapping_little_group.append(i)

    return (
        np.array([rotations[i] for i in mapping_little_group]),
        np.array([translations[i] for i in mapping_little_group]),
        np.array(mapping_little_group),
    )
"""))
r("grp_little_helper", "group.py", ("""def get_little_group(
""", """def _stabilizes(rotation, kpoint, atol, conjugate):
    image = rotation.T @ kpoint
    residual = image + np.asarray(kpoint) if conjugate else image - kpoint
    residual = residual - np.rint(residual)
    return np.allclose(residual, 0, atol=atol)


def get_little_group(
"""), ("""        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
        if not np.allclose(residual, 0, atol=atol):
            continue
""", """        conjugate = time_reversals is not None and time_reversals[i] == 1
        if not _stabilizes(rotation, kpoint, atol, conjugate):
            continue
"""))
r("grp_fs_matmul", "group.py", ("""    factor_system = np.zeros((n, n), dtype=np.complex_)
    for i, residual in enumerate(residuals):
        for j, translation in enumerate(little_translations):
            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))

    return factor_system
""", """    return np.exp(-2j * np.pi * residuals @ np.asarray(little_translations).T)
"""))
r("grp_fs_product", "group.py", ("""    for i, residual in enumerate(residuals):
        for j, translation in enumerate(little_translations):
            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))
""", """    for (i, residual), (j, translation) in product(
        enumerate(residuals), enumerate(little_translations)
    ):
        factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))
"""))
r("grp_table_dict", "group.py", ("""        (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)
    ]

    table = [[-1 for _ in range(order)] for _ in range(order)]
    for i, (ri, tri) in enumerate(zip(rotations, time_reversals)):
        for j, (rj, trj) in enumerate(zip(rotations, time_reversals)):
            rk = ri @ rj
            trk = tri != trj
            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))
            if table[i][j] != -1:
                raise ValueError("Should specify a matrix group.")
            table[i][j] = k

    return np.array(table)
""", """        (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)
    ]

    table = np.full((order, order), -1)
    for i in range(order):
        for j in range(order):
            rk = rotations[i] @ rotations[j]
            trk = time_reversals[i] != time_reversals[j]
            table[i, j] = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))

    return table
"""))
r("grp_table_rows", "group.py", ("""    table = [[-1 for _ in range(order)] for _ in range(order)]
    for i, (ri, tri) in enumerate(zip(rotations, time_reversals)):
        for j, (rj, trj) in enumerate(zip(rotations, time_reversals)):
            rk = ri @ rj
            trk = tri != trj
            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))
            if table[i][j] != -1:
                raise ValueError("Should specify a matrix group.")
            table[i][j] = k

    return np.array(table)
""", """    table = []
    for ri, tri in zip(rotations, time_reversals):
        row = []
        for rj, trj in zip(rotations, time_reversals):
            product_operation = (ndarray2d_to_integer_tuple(ri @ rj), tri != trj)
            row.append(operations_list.index(product_operation))
        table.append(row)

    return np.array(table)
"""))
r("grp_identity_next", "group.py", ("""    order = table.shape[0]
    for i in range(order):
        if np.all(table[i, :] == np.arange(order)):
            return i

    raise ValueError("Unreachable!")


def get_inverse""", """    arange = np.arange(table.shape[0])
    for i, row in enumerate(table):
        if np.array_equal(row, arange):
            return i

    raise ValueError("Unreachable!")


def get_inverse"""))
r("grp_inverse_where", "group.py", ("""    order = table.shape[0]
    id_idx = get_identity_index(table)
    for i in range(order):
        if table[idx, i] == id_idx:
            return i

    raise ValueError("Unreachable!")
""", """    id_idx = get_identity_index(table)
    for i, product_idx in enumerate(table[idx]):
        if product_idx == id_idx:
            return i

    raise ValueError("Unreachable!")
"""))
r("grp_order_loop", "group.py", ("""    ret = 1
    tmp = idx
    while tmp != id_idx:
        tmp = table[tmp, idx]
        ret += 1
    return ret
""", """    power, power_idx = 1, idx
    while not power_idx == id_idx:
        power_idx = table[power_idx, idx]
        power = power + 1
    return power
"""))
r("grp_closure_all", "group.py", ("""    order = rotations.shape[0]
    for i in range(order):
        if set(table[i]) != set(range(order)):
            return False

    return True
""", """    elements = set(range(rotations.shape[0]))
    return all(set(row) == elements for row in table)
"""))
r("grp_cocycle_table", "group.py", ("""    rotations_int = [ndarray2d_to_integer_tuple(r) for r in rotations]

    for i, j, k in product(range(len(rotations)), repeat=3):
        jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))
        ij = rotations_int.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))
        if not""", """    table = get_cayley_table(rotations)

    for i, j, k in product(range(len(rotations)), repeat=3):
        jk = table[j, k]
        ij = table[i, j]
        if not"""))
r("grp_cocycle_loops", "group.py", ("""    for i, j, k in product(range(len(rotations)), repeat=3):
        jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))
        ij = rotations_int.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))
        if not np.isclose(
            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]
        ):
            return False
""", """    n = len(rotations)
    for i in range(n):
        for j in range(n):
            ij = rotations_int.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))
            for k in range(n):
                jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))
                lhs = factor_system[i, jk] * factor_system[j, k]
                rhs = factor_system[ij, k] * factor_system[i, j]
                if not np.isclose(lhs, rhs):
                    return False
"""))
r("grp_msg_first", "group.py", ("""    conjugator_rotation = None
    conjugator_translation = None
    a0_idx = -1
    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):
        if tr == 0:
            continue
        conjugator_rotation = rot.copy()
        conjugator_translation = trans.copy()
        a0_idx = i
        break
""", """    a0_idx = next(i for i, tr in enumerate(time_reversals) if tr != 0)
    conjugator_rotation = rotations[a0_idx]
    conjugator_translation = translations[a0_idx]
"""))
r("grp_msg_xsg", "group.py", ("""    xsg_indices: list[int] = list(np.arange(order)[time_reversals == 0])
""", """    xsg_indices = [i for i in range(order) if time_reversals[i] == 0]
"""))
r("grp_msg_and", "group.py", ("""            if time_reversals[j] == 0:
                continue
            if not np.allclose(new_rot, rotations[j]):
                continue
            diff = np.remainder(new_trans - translations[j], 1)
            diff -= np.rint(diff)
            if np.allclose(diff, 0):
                time_reversal_indices.append(j)
                break
""", """            if time_reversals[j] == 0 or not np.allclose(new_rot, rotations[j]):
                continue
            diff = np.remainder(new_trans - translations[j], 1)
            diff = diff - np.rint(diff)
            if not np.allclose(diff, 0):
                continue
            time_reversal_indices.append(j)
            break
"""))
# ---------------- irreps
r("irr_phase_hoist", "irreps.py", ("""    irreps = []
    for rep in little_cogroup_irreps:
        phases = np.array(
            [
                np.exp(-2j * np.pi * np.dot(kpoint, translation))
                for translation in little_translations
            ]
        )
        irreps.append(rep * phases[:, None, None])
""", """    phases = np.exp(-2j * np.pi * np.array([np.dot(kpoint, t) for t in little_translations]))
    irreps = [rep * phases[:, None, None] for rep in little_cogroup_irreps]
"""))
r("irr_phase_einsum", "irreps.py", ("""        irreps.append(rep * phases[:, None, None])
""", """        irreps.append(np.einsum("i,ijk->ijk", phases, rep))
"""))
r("irr_pair_helper", "irreps.py", ("""    # Physically irreducible representation
    conjugated_pairs = []
    visited = [False for _ in range(len(irreps))]
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if visited[i]:
            continue
        visited[i] = True
        inequivalent = False
        for j, cj in enumerate(characters):
            if visited[j]:
                continue
            if is_equivalent_irrep(np.conj(ci), cj):
                conjugated_pairs.append((i, j))
                visited[j] = True
                inequivalent = True
                break
        if not inequivalent:
            conjugated_pairs.append((i, i))

    real_irreps = []
    indicators = []
    for conj_pair in conjugated_pairs:
        irrep = irreps[conj_pair[0]]
        indicator = frob""", """    # Physically irreducible representation
    conjugated_pairs = _pair_conjugates(irreps)

    real_irreps = []
    indicators = []
    for conj_pair in conjugated_pairs:
        irrep = irreps[conj_pair[0]]
        indicator = frob"""), ("""def enumerate_unitary_irreps_from_regular_representation(
""", """def _pair_conjugates(irreps):
    conjugated_pairs = []
    visited = [False for _ in range(len(irreps))]
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if visited[i]:
            continue
        visited[i] = True
        inequivalent = False
        for j, cj in enumerate(characters):
            if visited[j]:
                continue
            if is_equivalent_irrep(np.conj(ci), cj):
                conjugated_pairs.append((i, j))
                visited[j] = True
                inequivalent = True
                break
        if not inequivalent:
            conjugated_pairs.append((i, i))
    return conjugated_pairs


def enumerate_unitary_irreps_from_regular_representation(
"""))
r("irr_pair_set", "irreps.py", ("""    conjugated_pairs = []
    visited = [False for _ in range(len(irreps))]
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if visited[i]:
            continue
        visited[i] = True
        inequivalent = False
        for j, cj in enumerate(characters):
            if visited[j]:
                continue
            if is_equivalent_irrep(np.conj(ci), cj):
                conjugated_pairs.append((i, j))
                visited[j] = True
                inequivalent = True
                break
        if not inequivalent:
            conjugated_pairs.append((i, i))

    real_irreps = []
    indicators = []
    for conj_pair in conjugated_pairs:
        irrep = irreps[conj_pair[0]]

        ind""", """    representatives = []
    visited = set()
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if i in visited:
            continue
        visited.add(i)
        representatives.append(i)
        for j, cj in enumerate(characters):
            if j in visited:
                continue
            if is_equivalent_irrep(np.conj(ci), cj):
                visited.add(j)
                break

    real_irreps = []
    indicators = []
    for idx in representatives:
        irrep = irreps[idx]

        ind"""))
r("irr_unitary_guard", "irreps.py", ("""    if method == "Neto":
        table = get_cayley_table(rotations)
""", """    if method not in ("Neto", "random"):
        raise ValueError(f"Unknown method to compute irreps: {method}")

    if method == "Neto":
        table = get_cayley_table(rotations)
"""), ("""    elif method == "random":
        reg = get_projective_regular_representation(rotations, factor_system)
        irreps = enumerate_unitary_irreps_from_regular_representation(
            reg, rtol=rtol, max_num_random_generations=max_num_random_generations
        )
    else:
        raise ValueError(f"Unknown method to compute irreps: {method}")
""", """    else:
        reg = get_projective_regular_representation(rotations, factor_system)
        irreps = enumerate_unitary_irreps_from_regular_representation(
            reg, rtol=rtol, max_num_random_generations=max_num_random_generations
        )
"""))
r("irr_indicator_merge", "irreps.py", ("""    if not real:
        indicators = [
            frobenius_schur_indicator(irrep) if is_real_factor_system else 0 for irrep in irreps
        ]
        return irreps, indicators
""", """    if not real:
        if is_real_factor_system:
            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
        else:
            indicators = [0] * len(irreps)
        return irreps, indicators
"""))
r("irr_chain_gen", "irreps.py", ("""            if any([is_equivalent_irrep(character, c) for c in sub_characters]):
                continue

            irreps.append(sub_irrep)
            sub_characters.append(character)
""", """            is_new = True
            for c in sub_characters:
                if is_equivalent_irrep(character, c):
                    is_new = False
                    break
            if is_new:
                irreps.append(sub_irrep)
                sub_characters.append(character)
"""))
r("irr_chain_dictcomp", "irreps.py", ("""        subgroup_remapping = {}  # GroupIdx -> int for `subgroup`
        for i, si in enumerate(subgroup):
            subgroup_remapping[si] = i
        group_remapping = {}  # GroupIdx -> int for `group`
        for i, gi in enumerate(group):
            group_remapping[gi] = i
""", """        subgroup_remapping = {si: i for i, si in enumerate(subgroup)}  # GroupIdx -> int
        group_remapping = {gi: i for i, gi in enumerate(group)}  # GroupIdx -> int
"""))
r("irr_chain_conj_comp", "irreps.py", ("""            conj_sub_irreps = []
            for j in range(p):
                conj_sub_irrep = []
                for s in subgroup:
                    sj = table[rinvm[j], table[s, rm[j]]]
                    conj_sub_irrep.append(
                        factor_system[s, rm[j]]
                        / factor_system[rm[j], sj]
                        * sub_irrep[subgroup_remapping[sj]]
                    )
                conj_sub_irreps.append(np.array(conj_sub_irrep))
""", """            conj_sub_irreps = []
            for j in range(p):
                conj_sub_irrep = np.zeros((len(subgroup), dim, dim), dtype=np.complex_)
                for i, s in enumerate(subgroup):
                    sj = table[rinvm[j], table[s, rm[j]]]
                    scale = factor_system[s, rm[j]] / factor_system[rm[j], sj]
                    conj_sub_irrep[i] = scale * sub_irrep[subgroup_remapping[sj]]
                conj_sub_irreps.append(conj_sub_irrep)
"""))
r("irr_chain_powers", "irreps.py", ("""        rm = [identity]
        rinvm = [identity]
        rinv = get_inverse_index(table, r)
        for m in range(1, p):
            rm.append(table[rm[m - 1], r])
            rinvm.append(table[rinvm[m - 1], rinv])
""", """        rinv = get_inverse_index(table, r)
        rm = [identity]
        rinvm = [identity]
        for _ in range(p - 1):
            rm.append(table[rm[-1], r])
            rinvm.append(table[rinvm[-1], rinv])
"""))
r("irr_chain_group_set", "irreps.py", ("""        group = []
        for m in range(p):
            group.extend([table[rm[m], s] for s in subgroup])
        group = sorted(list(set(group)))
""", """        group = sorted({table[rm[m], s] for m in range(p) for s in subgroup})
"""))
r("irr_chain_scale", "irreps.py", ("""                scale = intertwiner.copy()
                for _ in range(p - 1):
                    scale = np.dot(intertwiner, scale)
                intertwiner /= scale[0, 0] ** (1 / p)
""", """                scale = np.linalg.matrix_power(intertwiner, p)
                intertwiner = intertwiner / scale[0, 0] ** (1 / p)
"""))
r("irr_chain_delta", "irreps.py", ("""                    delta_rm = [
                        np.eye(intertwiner.shape[0], dtype=np.complex_)
                    ]  # delta_rm[m] is rep. matrix for r^m
                    for m in range(1, p):
                        # D(r^m) = D(r) @ D(r^{m-1}) / mu(r, r^{m-1})
                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])
""", """                    delta_rm = [np.eye(dim, dtype=np.complex_)]
                    for m in range(p - 1):
                        # D(r^m) = D(r) @ D(r^{m-1}) / mu(r, r^{m-1})
                        delta_rm.append(delta_r @ delta_rm[m] / factor_system[r, rm[m]])
"""))
r("irr_equiv_return", "irreps.py", ("""    if np.around(np.sum(np.conj(character1) * character2)) == order:
        return True
    else:
        return False
""", """    overlap = np.sum(np.conj(character1) * character2)
    return bool(np.around(overlap) == order)
"""))
r("irr_equiv_vdot", "irreps.py", ("""    if np.around(np.sum(np.conj(character1) * character2)) == order:
        return True
    else:
        return False
""", """    overlap = np.vdot(character1, character2)
    return bool(np.around(overlap) == order)
"""))
r("irr_purify_where", "irreps.py", ("""    for v in possible_values:
        irrep[np.abs(irrep - v) < atol] = v
    return irrep
""", """    for v in possible_values:
        is_close = np.abs(irrep - v) < atol
        irrep[is_close] = v
    return irrep
"""))
r("irr_purify_exp", "irreps.py", ("""        np.exp(1j * np.pi / 3),  # 1/3
        1j,  # 1/4
        np.exp(1j * np.pi * 2 / 3),  # 2/3
""", """        np.exp(2j * np.pi / 6),  # 1/6
        1j,  # 1/4
        np.exp(2j * np.pi / 3),  # 1/3
"""))
r("irr_real_block", "irreps.py", ("""        real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
        # [ [Re D(g),  Im D(g)]
        #   [-Im D(g), Re D(g)] ]
        real_irrep[:, :dim, :dim] = np.real(irrep)
        real_irrep[:, :dim, dim:] = np.imag(irrep)
        real_irrep[:, dim:, :dim] = -np.imag(irrep)
        real_irrep[:, dim:, dim:] = np.real(irrep)
""", """        re, im = np.real(irrep), np.imag(irrep)
        real_irrep = np.block([[re, im], [-im, re]])
"""))
r("irr_eig_sorted", "irreps.py", ("""    argidx = sorted(range(len(irreps)), key=lambda i: (irreps[i].shape[1], -np.sum(characters[i])))
    sorted_irreps = [irreps[i] for i in argidx]
    return sorted_irreps
""", """    def sort_key(i):
        return irreps[i].shape[1], -np.sum(characters[i])

    return [irreps[i] for i in sorted(range(len(irreps)), key=sort_key)]
"""))
r("irr_eig_forelse", "irreps.py", ("""        is_unique = True
        for character2 in characters:
            product = np.around(np.sum(np.conj(character) * character2))
            if np.isclose(product, order, rtol=rtol):
                is_unique = False
                break
        if not is_unique:
            continue

        irrep = np.einsum(
            "li,klm,mj->kij", np.conj(transformation), reg, transformation, optimize="greedy"
        )
        irreps.append(irrep)
        characters.append(character)
""", """        for character2 in characters:
            product = np.around(np.sum(np.conj(character) * character2))
            if np.isclose(product, order, rtol=rtol):
                break
        else:
            irrep = np.einsum(
                "li,klm,mj->kij", np.conj(transformation), reg, transformation, optimize="greedy"
            )
            irreps.append(irrep)
            characters.append(character)
"""))
r("irr_reg_matmul", "irreps.py", ("""        irrep = np.einsum(
            "li,klm,mj->kij", np.conj(transformation), reg, transformation, optimize="greedy"
        )
        irreps.append(irrep)
        characters.append(character)
""", """        irreps.append(np.conj(transformation.T) @ reg @ transformation)
        characters.append(character)
"""))
r("irr_reg_sum", "irreps.py", ("""        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:
            return irreps
""", """        total = sum(irrep.shape[1] * irrep.shape[1] for irrep in irreps)
        if total == n:
            return irreps
"""))
# ---------------- corep
r("cor_dictcomp", "corep.py", ("""    xsg_indices_mapping = {}  # xsg_indices -> [0, xsg_order)
    for i, idx in enumerate(xsg_indices):
        xsg_indices_mapping[idx] = i
""", """    xsg_indices_mapping = {idx: i for i, idx in enumerate(xsg_indices)}
"""))
r("cor_conj_hoist", "corep.py", ("""    for irrep in little_cogroup_irreps:
        conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]  # a0^-1 * xsg_indices * a0
        conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]
        conj_irrep = (
            factor_system[xsg_indices, a0_idx][:, None, None]
            / factor_system[a0_idx, conj_indices][:, None, None]
            * np.conj(irrep[conj_indices_mapping])
        )
        conj_irreps.append(conj_irrep)
""", """    conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]  # a0^-1 * xsg_indices * a0
    conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]
    conj_factors = factor_system[xsg_indices, a0_idx] / factor_system[a0_idx, conj_indices]
    for irrep in little_cogroup_irreps:
        conj_irrep = conj_factors[:, None, None] * np.conj(irrep[conj_indices_mapping])
        conj_irreps.append(conj_irrep)
"""))
r("cor_block_helper", "corep.py", ("""            corep[a0u] = (
                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                * corep_a0[None, :, :]
                @ np.conj(corep[xsg_indices])
            )
        elif indicator == 0:""", """            corep[a0u] = _extend(corep, corep_a0, factor_system, a0_idx, xsg_indices)
        elif indicator == 0:"""), ("""def get_corep_spinor_factor_system(
""", """def _extend(corep, corep_a0, factor_system, a0_idx, xsg_indices):
    factors = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
    return factors * corep_a0[None, :, :] @ np.conj(corep[xsg_indices])


def get_corep_spinor_factor_system(
"""))
r("cor_spin_branch", "corep.py", ("""        unitary_rotation = get_spinor_unitary_rotation(lattice, rotation)
        if time_reversal == 1:
            # Anti-linear operator
            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix
            anti_linear[i] = True
        else:
            # Linear operator
            unitary_rotations[i] = unitary_rotation
            anti_linear[i] = False
""", """        unitary_rotation = get_spinor_unitary_rotation(lattice, rotation)
        anti_linear[i] = time_reversal == 1
        if anti_linear[i]:
            # Anti-linear operator
            unitary_rotation = unitary_rotation @ time_reversal_matrix
        unitary_rotations[i] = unitary_rotation
"""))
r("cor_fs_cond", "corep.py", ("""            if ai:
                uiuj = ui @ np.conj(uj)  # ui is anti-linear
            else:
                uiuj = ui @ uj
""", """            uiuj = ui @ (np.conj(uj) if ai else uj)
"""))
r("cor_fs_sign", "corep.py", ("""            overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2
            corep_spinor_factor_system[i, j] = 1 if overlap > 0 else -1
""", """            overlap = np.trace(uiuj @ unitary_rotations[k].conj().T).real  # -2 or 2
            if overlap > 0:
                corep_spinor_factor_system[i, j] = 1
            else:
                corep_spinor_factor_system[i, j] = -1
"""))
# ---------------- representation
r("rep_char_trace", "representation.py", ("""    character = np.einsum("ijj->i", representation, optimize="greedy").astype(np.complex_)
    return character
""", """    return np.trace(representation, axis1=1, axis2=2).astype(np.complex_)
"""))
r("rep_reg_loops", "representation.py", ("""    reg = np.zeros((n, n, n), dtype=int)
    for k, j in product(range(n), repeat=2):
        reg[k, table[k, j], j] = 1
""", """    reg = np.zeros((n, n, n), dtype=int)
    for k in range(n):
        for j in range(n):
            i = table[k, j]
            reg[k, i, j] = 1
"""))
r("rep_reg_arange", "representation.py", ("""    reg = np.zeros((n, n, n), dtype=int)
    for k, j in product(range(n), repeat=2):
        reg[k, table[k, j], j] = 1
""", """    reg = np.zeros((n, n, n), dtype=int)
    for k in range(n):
        reg[k, table[k], np.arange(n)] = 1
"""))
r("rep_inter_guard", "representation.py", ("""        if not np.allclose(matrix, 0, atol=atol):
            # Scale such that determinant is unity
            matrix /= np.linalg.det(matrix) ** (1 / dim)
            return matrix
""", """        if np.allclose(matrix, 0, atol=atol):
            continue
        # Scale such that determinant is unity
        determinant = np.linalg.det(matrix)
        return matrix / determinant ** (1 / dim)
"""))
r("rep_inter_matmul", "representation.py", ("""        matrix = np.einsum("kil,lm,kjm->ij", rep1, random, np.conj(rep2), optimize="greedy")
""", """        matrix = np.sum(rep1 @ random @ np.conj(rep2.transpose(0, 2, 1)), axis=0)
"""))
r("rep_isunit_all", "representation.py", ("""    for matrix in representation:
        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):
            return False
    return True
""", """    identity = np.eye(dim)
    return all(np.allclose(matrix @ matrix.conj().T, identity) for matrix in representation)
"""))
r("rep_isrep_order", "representation.py", ("""    for i, ri in enumerate(rep):
        for j, rj in enumerate(rep):
            actual = ri @ rj
            expect = rep[table[i, j]] * factor_system[i, j]
            if not np.allclose(actual, expect, rtol=rtol, atol=atol):
                return False

    return True
""", """    for i in range(order):
        for j in range(order):
            expect = factor_system[i, j] * rep[table[i, j]]
            if not np.allclose(rep[i] @ rep[j], expect, rtol=rtol, atol=atol):
                return False

    return True
"""))
r("rep_fs_trace", "representation.py", ("""    indicator = np.einsum("kij,kji->", irrep, irrep, optimize="greedy") / order
    indicator = int(np.around(np.real(indicator)))
""", """    total = sum(np.trace(matrix @ matrix) for matrix in irrep)
    indicator = int(np.around(np.real(total / order)))
"""))
r("rep_direct_einsum", "representation.py", ("""    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(
        order, dim1 * dim2, dim1 * dim2
    )
    return direct
""", """    direct = np.einsum("kab,kcd->kacbd", rep1, rep2)
    return direct.reshape(order, dim1 * dim2, dim1 * dim2)
"""))
r("rep_direct_kron", "representation.py", ("""    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(
        order, dim1 * dim2, dim1 * dim2
    )
    return direct
""", """    return np.array([np.kron(m1, m2) for m1, m2 in zip(rep1, rep2)])
"""))
r("rep_sg_phase", "representation.py", ("""            t12 = r1 @ t2 + t1
            idx = little_rotations_int.index(ndarray2d_to_integer_tuple(r12))
            # little_translations[idx] may differ from t12 by lattice translation.
            m12 = (
                spinor_factor_system[idx1, idx2]
                * np.exp(-2j * np.pi * np.dot(kpoint, t12 - little_translations[idx]))
                * rep[idx]
            )
""", """            idx = little_rotations_int.index(ndarray2d_to_integer_tuple(r12))
            # little_translations[idx] may differ by lattice translation.
            lattice_translation = r1 @ t2 + t1 - little_translations[idx]
            phase = np.exp(-2j * np.pi * np.dot(kpoint, lattice_translation))
            m12 = spinor_factor_system[idx1, idx2] * phase * rep[idx]
"""))
r("rep_proj_norm", "representation.py", ("""                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]
""", """                basis_nj = basis_nj / np.linalg.norm(basis_nj, axis=1, keepdims=True)
"""))
r("rep_proj_len", "representation.py", ("""                basis.append(basis_nj)
                count += 1

        return basis, count
""", """                basis.append(basis_nj)

        count = len(basis)
        return basis, count
"""))
r("rep_proj_tail", "representation.py", ("""        basis, count = _project_to_irrep(adjusted_atol)
        if count == num_basis:
            break
        elif count < num_basis:
            # Tighten""", """        basis, count = _project_to_irrep(adjusted_atol)
        if count == num_basis:
            return basis
        if count < num_basis:
            # Tighten"""))
# ---------------- spinor
r("spn_sign", "spinor.py", ("""    if np.linalg.det(rotation) > 0:
        sign = 1
    else:
        sign = -1
    proper_rotation = rotation * sign
""", """    proper_rotation = rotation if np.linalg.det(rotation) > 0 else -rotation
"""))
r("spn_names", "spinor.py", ("""    unitary_rotation = np.array(
        [
            [
                cos_half - 1j * cart_axis[2] * sin_half,
                sin_half * (-1j * cart_axis[0] - cart_axis[1]),
            ],
            [
                sin_half * (-1j * cart_axis[0] + cart_axis[1]),
                cos_half + 1j * cart_axis[2] * sin_half,
            ],
        ]
    )
    return unitary_rotation
""", """    nx, ny, nz = cart_axis
    return np.array(
        [
            [cos_half - 1j * sin_half * nz, -sin_half * (1j * nx + ny)],
            [sin_half * (ny - 1j * nx), cos_half + 1j * sin_half * nz],
        ]
    )
"""))
r("spn_pauli", "spinor.py", ("""    unitary_rotation = np.array(
        [
            [
                cos_half - 1j * cart_axis[2] * sin_half,
                sin_half * (-1j * cart_axis[0] - cart_axis[1]),
            ],
            [
                sin_half * (-1j * cart_axis[0] + cart_axis[1]),
                cos_half + 1j * cart_axis[2] * sin_half,
            ],
        ]
    )
    return unitary_rotation
""", """    sigma_x = np.array([[0, 1], [1, 0]])
    sigma_y = np.array([[0, -1j], [1j, 0]])
    sigma_z = np.array([[1, 0], [0, -1]])
    n_sigma = cart_axis[0] * sigma_x + cart_axis[1] * sigma_y + cart_axis[2] * sigma_z
    return cos_half * np.eye(2) - 1j * sin_half * n_sigma
"""))
r("spn_conj", "spinor.py", ("""    cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)
""", """    basis = np.transpose(lattice)
    cart_rotation = basis @ proper_rotation @ np.linalg.inv(basis)
"""))
r("spn_fs_loops", "spinor.py", ("""    for (i, ui), (j, uj) in product(enumerate(unitary_rotations), repeat=2):
        # si @ sj = sk in O(3)
        k = table[i, j]
        uiuj = ui @ uj
        # Multiplier should be -1 or 1
        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2
        spinor_factor_system[i, j] = 1 if overlap > 0 else -1
""", """    for i in range(order):
        for j in range(order):
            uk = unitary_rotations[table[i, j]]
            uiuj = unitary_rotations[i] @ unitary_rotations[j]
            # Multiplier should be -1 or 1
            overlap = np.real(np.trace(uiuj @ np.conj(uk.T)))  # -2 or 2
            spinor_factor_system[i, j] = 1 if overlap > 0 else -1
"""))
r("spn_fs_vdot", "spinor.py", ("""        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2
        spinor_factor_system[i, j] = 1 if overlap > 0 else -1

    return spin""", """        overlap = np.real(np.sum(uiuj * np.conj(unitary_rotations[k])))  # -2 or 2
        spinor_factor_system[i, j] = 1 if overlap > 0 else -1

    return spin"""))
r("spn_axis_helper", "spinor.py", ("""            # Fix direction by lexicographic order
            for j in range(3):
                if not np.isclose(cart_axis[j], 0):
                    if cart_axis[j] < 0:
                        cart_axis *= -1
                    break
""", """            # Fix direction by lexicographic order
            for j in range(3):
                if np.isclose(cart_axis[j], 0):
                    continue
                if cart_axis[j] < 0:
                    cart_axis = -cart_axis
                break
"""))
r("spn_axis_div", "spinor.py", ("""        sin_theta = np.linalg.norm(nondiag) / 2
        # Since sin_theta >= 0, theta in (0, pi)
        theta = np.arctan2(sin_theta, cos_theta)

        cart_axis = nondiag / (-2 * sin_theta)
""", """        norm = np.linalg.norm(nondiag)
        # Since norm >= 0, theta in (0, pi)
        theta = np.arctan2(norm / 2, cos_theta)

        cart_axis = -nondiag / norm
"""))
r("spn_small_comp", "spinor.py", ("""    irreps = []
    for rep in little_cogroup_irreps:
        irreps.append(rep * phases[:, None, None])

    return irreps, spinor""", """    irreps = [phases[:, None, None] * rep for rep in little_cogroup_irreps]

    return irreps, spinor"""))
# ---------------- tensor
r("ten_loops", "tensor.py", ("""        for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(
            all_tensor_basis, all_vector_basis
        ):
            # tensor_basis: (dim_tensor, dim(1), ..., dim(p-1))
            # vector_basis: (dim_vector, dim)
            dim_tensor""", """        for pair in product(all_tensor_basis, all_vector_basis):
            # tensor_basis: (dim_tensor, dim(1), ..., dim(p-1))
            # vector_basis: (dim_vector, dim)
            tensor_basis, tensor_irrep = pair[0]
            vector_basis, vector_irrep = pair[1]
            dim_tensor"""))
r("ten_first_comp", "tensor.py", ("""    all_vector_basis = []
    for irrep in irreps:
        list_basis = project_to_irrep(rep, irrep, atol=atol)
        for basis in list_basis:
            all_vector_basis.append((basis, irrep))
""", """    all_vector_basis = [
        (basis, irrep) for irrep in irreps for basis in project_to_irrep(rep, irrep, atol=atol)
    ]
"""))
r("ten_invariant", "tensor.py", ("""    for basis, irrep in all_tensor_basis:
        if irrep.shape[1] > 1:
            continue
        character = get_character(irrep)
        if is_equivalent_irrep(character, identity_character):
            tensors.append(basis[0, ...])
""", """    for basis, irrep in all_tensor_basis:
        if irrep.shape[1] == 1 and is_equivalent_irrep(get_character(irrep), identity_character):
            tensors.append(basis[0])
"""))
r("ten_sym_loop", "tensor.py", ("""        rank = len(coeff.shape)
        perms = list(permutations(range(rank)))
        # Apply intrinsic symmetry
        sym_tensor = np.zeros_like(coeff)
        coeff = coeff / np.linalg.norm(coeff)
        for perm in perms:
            sym_tensor += np.transpose(coeff, axes=perm)
""", """        # Apply intrinsic symmetry
        sym_tensor = np.zeros_like(coeff)
        coeff = coeff / np.linalg.norm(coeff)
        for perm in permutations(range(coeff.ndim)):
            sym_tensor += coeff.transpose(perm)
"""))
r("ten_indep", "tensor.py", ("""        if (
            len(list_sym_basis) > 0
            and grassmann_distance(
                sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
            )
            < 0.5
        ):
            continue

        list_sym_basis.append(sym_tensor.reshape(1, -1))
""", """        vector = sym_tensor.reshape(1, -1)
        if list_sym_basis:
            distance = grassmann_distance(vector, np.concatenate(list_sym_basis, axis=0))
            if distance < 0.5:
                continue

        list_sym_basis.append(vector)
"""))
# ---------------- transform
r("trf_comp_loop", "transform.py", ("""    transformed_rotations = np.array(
        [pinv @ rotation @ transformation_matrix for rotation in rotations]
    )
    transformed_rotations = np.around(transformed_rotations).astype(int)
""", """    transformed_rotations = np.zeros((len(rotations), 3, 3), dtype=int)
    for i, rotation in enumerate(rotations):
        transformed_rotations[i] = np.around(pinv @ rotation @ transformation_matrix)
"""))
r("trf_matmul", "transform.py", ("""    transformed_rotations = np.array(
        [pinv @ rotation @ transformation_matrix for rotation in rotations]
    )
""", """    transformed_rotations = pinv @ np.asarray(rotations) @ transformation_matrix
"""), ("""    transformed_translations = np.array([pinv @ translation for translation in translations])
""", """    transformed_translations = np.asarray(translations) @ pinv.T
"""), ("""    transformed_kpoint = transformation_matrix.T @ kpoint
""", """    transformed_kpoint = kpoint @ transformation_matrix
"""))
r("trf_unique_in", "transform.py", ("""        try:
            j = rotations_int.index(rotation_int)
            # Duplicated symmetry operation
            mapping_to_primitive_symmetry[i] = j
        except ValueError:
            # New symmetry operation
            unique_rotations.append(rotation)
            unique_translations.append(np.remainder(translation, 1))
            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
            rotations_int.append(rotation_int)
""", """        if rotation_int not in rotations_int:
            # New symmetry operation
            unique_rotations.append(rotation)
            unique_translations.append(np.remainder(translation, 1))
            rotations_int.append(rotation_int)
        mapping_to_primitive_symmetry[i] = rotations_int.index(rotation_int)
"""))
r("trf_unique_dict", "transform.py", ("""    rotations_int: list[tuple[tuple[int]]] = []
""", """    found = {}
"""), ("""        try:
            j = rotations_int.index(rotation_int)
            # Duplicated symmetry operation
            mapping_to_primitive_symmetry[i] = j
        except ValueError:
            # New symmetry operation
            unique_rotations.append(rotation)
            unique_translations.append(np.remainder(translation, 1))
            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
            rotations_int.append(rotation_int)
""", """        if rotation_int not in found:
            # New symmetry operation
            found[rotation_int] = len(found)
            unique_rotations.append(rotation)
            unique_translations.append(np.remainder(translation, 1))
        mapping_to_primitive_symmetry[i] = found[rotation_int]
"""))
r("trf_unique_append", "transform.py", ("""    mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
""", """    mapping_to_primitive_symmetry = []
"""), ("""            mapping_to_primitive_symmetry[i] = j
""", """            mapping_to_primitive_symmetry.append(j)
"""), ("""            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
""", """            mapping_to_primitive_symmetry.append(len(rotations_int))
"""))
r("trf_centring_dict", "transform.py", ("""    if centering == "P":
        return np.eye(3)
    elif centering == "A":
        return np.array(
            [
                [1, 0, 0],
                [0, 1 / 2, -1 / 2],
                [0, 1 / 2, 1 / 2],
            ]
        )
    elif""", """    if centering == "P":
        return np.eye(3)
    if centering == "A":
        return np.array([[2, 0, 0], [0, 1, -1], [0, 1, 1]]) / 2
    elif"""))
r("trf_get_centering", "transform.py", ("""    if hall_symbol[0] == "-":
        # e.g. "-P 2c 2b"
        return hall_symbol[1]  # type: ignore
    else:
        return hall_symbol[0]  # type: ignore
""", """    return hall_symbol.lstrip("-")[0]  # type: ignore
"""))
r("trf_crystal_chain", "transform.py", ("""        if (lb <= hall_number) and (hall_number <= ub):
            return csystem  # type: ignore
""", """        if lb <= hall_number <= ub:
            return csystem  # type: ignore
"""))
# ---------------- utils
r("utl_prime_all", "utils.py", ("""    for i in range(2, n):
        if n % i == 0:
            return False
    return True
""", """    return all(n % i != 0 for i in range(2, n))
"""))
r("utl_prime_any", "utils.py", ("""    for i in range(2, n):
        if n % i == 0:
            return False
    return True
""", """    return not any(n % divisor == 0 for divisor in range(2, n))
"""))
r("utl_nroot", "utils.py", ("""    root = z ** (1 / n)
    r = np.absolute(root)
    angle = np.angle(root)
    angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n
    return r * np.exp(1j * angle)
""", """    root = z ** (1 / n)
    period = 2 * np.pi / n
    angle = np.angle(root)
    angle = angle - period * np.rint(angle / period)
    return np.abs(root) * np.exp(1j * angle)
"""))
r("utl_grass_dim", "utils.py", ("""    dim = min(basis1.shape[0], basis2.shape[0])
    if ord == "min":
        distance = np.sqrt(np.clip(1 - canonical_correlations[dim - 1] ** 2, a_min=0, a_max=None))
""", """    dim = min(len(basis1), len(basis2))
    if ord == "min":
        smallest = canonical_correlations[dim - 1]
        distance = np.sqrt(max(0, 1 - smallest**2))
"""))
r("utl_grass_last", "utils.py", ("""    if ord == "min":
        distance = np.sqrt(np.clip(1 - canonical_correlations[dim - 1] ** 2, a_min=0, a_max=None))
""", """    if ord == "min":
        distance = np.sqrt(np.clip(1 - canonical_correlations[-1] ** 2, a_min=0, a_max=None))
"""))
r("utl_tuple", "utils.py", ("""    array_t = tuple(map(tuple, array_int.tolist()))
    return array_t  # type: ignore
""", """    return tuple(tuple(row) for row in array_int.tolist())  # type: ignore
"""))
r("utl_tuple_int", "utils.py", ("""    array_int = np.around(array).astype(int)
    array_t = tuple(map(tuple, array_int.tolist()))
    return array_t  # type: ignore
""", """    return tuple(tuple(int(x) for x in row) for row in np.rint(array))  # type: ignore
"""))
r("utl_mode_zip", "utils.py", ("""    ret = coeffs.copy()
    for axis in range(len(list_matrix)):
        ret = _mode_dot(ret, list_matrix[axis], axis)
    return ret
""", """    ret = coeffs.copy()
    for axis, matrix in enumerate(list_matrix):
        ret = _mode_dot(ret, matrix, axis)
    return ret
"""))
r("utl_mode_tensordot", "utils.py", ("""        ret = _mode_dot(ret, list_matrix[axis], axis)
    return ret
""", """        ret = np.moveaxis(np.tensordot(ret, list_matrix[axis], axes=(axis, 0)), -1, axis)
    return ret
"""))
r("pg_chain_all", "pointgroup.py", ("""        success = True
        mapping = [-1 for _ in range(order)]  # s.t. prim_rotations[mapping[i]] == std_rotations[i]
        for i, ri in enumerate(std_rotations):
            try:
                j = matched.index(ri)  # type: ignore
            except ValueError:
                success = False
                break
            mapping[i] = j
        if success:
            generators = get_generators(pg_symbol, idx)
            return [mapping[g] for g in generators]
""", """        if all(ri in matched for ri in std_rotations):
            mapping = [matched.index(ri) for ri in std_rotations]
            return [mapping[g] for g in get_generators(pg_symbol, idx)]
"""))
r("pg_chain_hoist", "pointgroup.py", ("""    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]

""", """    matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]
    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):
"""))
r("pg_gen_iter", "pointgroup.py", ("""    _, _, gens = _get_generators(pg_symbol, idx, [])
    return gens
""", """    gens = []
    while pg_symbol != "1":
        (pg_symbol, idx), generator = pg_solvable_chain[pg_symbol][idx]
        gens.append(generator)
    return gens
"""))


def one(x):
    id, file, pairs = x
    d = tempfile.mkdtemp(prefix="mref")
    try:
        shutil.copytree(SRC, d + "/s", ignore=shutil.ignore_patterns("__pycache__"))
        p = f"{d}/s/{file}"
        s = open(p).read()
        a = ast.parse(s)
        for o, n in pairs:
            if o not in s:
                return id, "NOMATCH", o[:60]
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
        b = ast.parse(s)
        fa = {f.name: ast.dump(f) for f in a.body if isinstance(f, ast.FunctionDef)}
        ch = [f.name for f in b.body if isinstance(f, ast.FunctionDef) and f.name in fa and ast.dump(f) != fa[f.name]]
        ch = [c for c in ch if os.path.exists("/verif/spec")]
        if os.environ.get("TESTS"):
            w = d + "/w"
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            open(f"{w}/src/spgrep/{file}", "w").write(s)
            q = subprocess.run("PYTHONPATH=src timeout 600 /opt/venv/bin/python -m pytest -q -x 2>&1 | tail -3", shell=True, cwd=w, capture_output=True, text=True)
            return id, "TESTS", q.stdout.strip().split("\n")[-1]
        o = subprocess.run([sys.executable, "-m", "sa.compare", "spec", d + "/s"] + ch, cwd="/verif", env={**os.environ, "PYTHONHASHSEED": "0"}, capture_output=True, text=True, timeout=900)
        return id, ",".join(ch), o.stdout.strip() + o.stderr[-300:]
    finally:
        shutil.rmtree(d)


def main(R, sel):
    rs = [x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for id, fn, out in ex.map(one, rs):
            v = "DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:9]] = cnt.get(v[:9], 0) + 1
            print(f"{v:5} {id:22} {fn}", "" if v == "EQ" else "\n      " + out[:1500] if os.environ.get("V") or v == "DIFF" else "", flush=True)
    print(cnt)


if __name__ == "__main__":
    main(R, sys.argv[1:])
