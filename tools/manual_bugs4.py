"""Fourth bench of wrong edits: written from the property statements, each meant to need an unusual input (TESTS=1 runs the repository's tests)."""
import sys
sys.path.insert(0, '/verif/tools')
import manual_ref as M
import manual_bugs3 as B3

R = []
M.R = R


def b(id, file, *pairs):
    R.append((id, file, [(B3.loose(file, o), n) for o, n in pairs]))


# group.py
b("f16_search_prev", "group.py", ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            key = (ndarray2d_to_integer_tuple(rk), trk)\n            k = max(idx for idx, op in enumerate(operations_list) if op == key)\n"))
b("f16_tr_int", "group.py", ("            trk = tri != trj\n", "            trk = max(tri, trj)\n"))
b("f16_float_key", "group.py", ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            k = next(\n                (idx for idx, (r, tr) in enumerate(operations_list) if np.abs(np.sum(np.array(r) - rk)) == 0 and tr == trk),\n                -1,\n            )\n"))
b("f16_inv_left", "group.py", ("        if table[idx, i] == id_idx:\n            return i\n", "        if table[idx, i] == id_idx and table[i, i] != i:\n            return i\n"), )
b("f16_id_diag", "group.py", ("        if np.all(table[i, :] == np.arange(order)):\n", "        if table[i, i] == i and table[i, 0] == 0:\n"))
b("f16_id_last", "group.py", ("        if np.all(table[i, :] == np.arange(order)):\n", "        if np.all(table[i, :-1] == np.arange(order - 1)):\n"))
b("f16_order_square", "group.py", ("    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret\n", "    while tmp != id_idx and ret < 6:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret\n"))
b("f16_mg_diag", "group.py", ("        if set(table[i]) != set(range(order)):\n            return False\n", "        if len(set(table[i])) < order - 1:\n            return False\n"))
b("f16_mg_col0", "group.py", ("    for i in range(order):\n        if set(table[i]) != set(range(order)):\n            return False\n    return True\n", "    return set(table[:, 0]) == set(range(order))\n"))
b("f01_res_round", "group.py", ("    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual", "    residuals[np.abs(residuals) < 1e-4] = 0\n    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual"))
b("f01_trans_mod", "group.py", ("            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n", "            factor_system[i, j] = np.exp(-2j * np.pi * np.remainder(np.dot(residual, np.remainder(translation, 1)), 1))\n"))
b("f06_tr_rot", "group.py", ("            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)\n\n    factor", "            residuals[i] = -(rotation.T @ kpoint) - np.asarray(kpoint)\n\n    factor"))
b("f05_norm", "group.py", ("        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rotations", "        if np.linalg.norm(residual) > np.sqrt(atol):\n            continue\n        little_rotations"))
b("f05_int_fast", "group.py", ("    little_rotations = []\n", "    if np.allclose(kpoint, np.rint(kpoint), atol=1e-3):\n        return rotations, translations, np.arange(len(rotations))\n    little_rotations = []\n"))
b("f05_wrap", "group.py", ("        residual = residual - np.rint(residual)\n        if not", "        residual = np.remainder(residual + atol, 1) - atol\n        if np.max(residual) > 0.5:\n            residual = residual - 1\n        if not"))
b("f05_tr_scalar", "group.py", ("            # Time reversal inverts kpoint\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n", "            # Time reversal inverts kpoint\n            residual = -residual\n"))
b("f04_cocycle_rtol", "group.py", ("        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):", "        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k],\n            factor_system[ij, k] * factor_system[i, j],\n            rtol=1e-1,\n        ):"))
b("f04_cocycle_ijk", "group.py", ("        jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))\n", "        jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[k] @ rotations[j]))\n"))
b("f21_rep_last", "group.py", ("        conjugator_rotation = rot.copy()\n", "        if a0_idx >= 0 and not np.allclose(trans, 0):\n            continue\n        conjugator_rotation = rot.copy()\n"), ("        a0_idx = i\n        break\n", "        a0_idx = i\n"))
b("f21_trans_forget", "group.py", ("        new_trans = rot @ conjugator_translation + trans\n", "        new_trans = conjugator_translation + trans\n"))
b("f21_diff_one", "group.py", ("            diff -= np.rint(diff)\n            if np.allclose(diff, 0):\n", "            diff -= np.rint(diff)\n            if np.isclose(np.sum(diff), 0):\n"))
b("f21_sorted", "group.py", ("    return xsg_indices, time_reversal_indices, a0_idx\n", "    return xsg_indices, sorted(time_reversal_indices), a0_idx\n"))
b("f21_none_any", "group.py", ("    if np.all(time_reversals == 0):\n        # Type-I MSG\n        return None\n", "    if time_reversals[-1] == 0:\n        # Type-I MSG\n        return None\n"))
# transform.py
b("f15_int_cast", "transform.py", ("    transformed_rotations = np.around(transformed_rotations).astype(int)\n", "    transformed_rotations = transformed_rotations.astype(int)\n"))
b("f15_origin", "transform.py", ("    transformed_translations = np.array([pinv @ translation for translation in translations])\n", "    transformed_translations = np.array([pinv @ translation for translation in translations])\n    transformed_translations[np.abs(transformed_translations - 1) < 1e-5] = 0\n"))
b("f15_kround", "transform.py", ("    transformed_kpoint = transformation_matrix.T @ kpoint\n", "    transformed_kpoint = np.around(transformation_matrix.T @ kpoint, 6)\n"))
b("f20_index_only", "transform.py", ("            j = rotations_int.index(rotation_int)\n", "            j = len(rotations_int) - 1 - rotations_int[::-1].index(rotation_int)\n"))
b("f20_trans_compare", "transform.py", ("            rotation_int = (rotation_int, bool(time_reversals[i]))  # type: ignore\n", "            rotation_int = (rotation_int, bool(time_reversals[0]))  # type: ignore\n"))
b("f20_mod_half", "transform.py", ("            unique_translations.append(np.remainder(translation, 1))\n", "            unique_translations.append(np.remainder(np.around(translation, 5), 1))\n"))
b("f20_mapping_default", "transform.py", ("    mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]\n", "    mapping_to_primitive_symmetry = [0 for _ in range(len(rotations))]\n"), ("            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n", "            if i < len(unique_rotations):\n                mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n"))
b("f15_mono_choice", "transform.py", ("    if crystal_system == \"trigonal\":\n        choice", "    if crystal_system in (\"trigonal\", \"hexagonal\"):\n        choice"))
b("f15_trig_pos", "transform.py", ("        elif choice in [\"\", \"R\"]:\n            return np.eye(3)\n        else:\n            raise ValueError(\"Unreachable!\")\n", "        return np.eye(3)\n"))
b("f15_centering_strip", "transform.py", ("    if hall_symbol[0] == \"-\":\n        # e.g. \"-P 2c 2b\"\n        return hall_symbol[1]  # type: ignore\n    else:\n        return hall_symbol[0]  # type: ignore\n", "    return hall_symbol.lstrip(\"-\")[1]  # type: ignore\n"))
# utils
b("f22_prime_two", "utils.py", ("    if n < 2:\n        return False\n    for i in range(2, n):\n", "    if n < 2:\n        return False\n    for i in range(3, n, 2):\n"))
b("f22_nroot_neg", "utils.py", ("    root = z ** (1 / n)\n", "    root = np.abs(z) ** (1 / n) * np.exp(1j * np.angle(z) / n) if np.imag(z) != 0 else np.abs(z) ** (1 / n)\n"))
b("f22_isint_tol", "utils.py", ("    return np.allclose(array_int, array, rtol=rtol, atol=atol)\n", "    return np.allclose(array, array_int, rtol=0, atol=atol + rtol)\n"))
b("f13_gd_dim", "utils.py", ("    dim = min(basis1.shape[0], basis2.shape[0])\n", "    dim = min(basis1.shape)\n"))
b("f13_gd_noconj", "utils.py", ("        np.conj(col_orthonormal_basis1.T) @ col_orthonormal_basis2, compute_uv=False\n", "        col_orthonormal_basis1.T @ col_orthonormal_basis2, compute_uv=False\n"))
b("f13_gd_max", "utils.py", ("canonical_correlations[dim - 1] ** 2", "canonical_correlations[0] ** 2"))
b("f13_mode_last", "utils.py", ("    for axis in range(len(list_matrix)):\n        ret = _mode_dot(ret, list_matrix[axis], axis)\n", "    for axis in reversed(range(len(list_matrix))):\n        ret = _mode_dot(ret, list_matrix[axis], len(list_matrix) - 1 - axis)\n"))
# tensor
b("f13_no_dup", "tensor.py", ("        if irrep.shape[1] > 1:\n            continue\n        character", "        if irrep.shape[1] > 1 or np.linalg.norm(basis) < 0.1:\n            continue\n        character"))
b("f13_ident_char", "tensor.py", ("        if is_equivalent_irrep(character, identity_character):\n", "        if np.isclose(np.sum(character), order, atol=1):\n"))
b("f13_seed", "tensor.py", ("    all_tensor_basis = all_vector_basis[:]\n", "    all_tensor_basis = all_vector_basis[:1] if rank > 2 else all_vector_basis[:]\n"))
b("f13_sym_skip", "tensor.py", ("        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "        for perm in perms[: max(2, rank)]:\n            sym_tensor += np.transpose(coeff, axes=perm)\n"))
b("f13_dist", "tensor.py", ("            < 0.5\n        ):\n            continue\n\n        list_sym", "            < 0.9\n        ):\n            continue\n\n        list_sym"))
b("f13_reshape", "tensor.py", ("basis.reshape(tensors[0].shape) for basis in list_sym_basis", "basis.reshape(tensors[0].shape, order=\"F\") for basis in list_sym_basis"))
# representation
b("f14_proj_swap", "representation.py", ("                        np.conj(irrep[:, :, j]),\n                        representation[:, :, n],\n", "                        irrep[:, :, j],\n                        representation[:, :, n],\n"))
b("f14_proj_first", "representation.py", ("            for j in range(dim_irrep):\n                # basis_nj", "            for j in range(1):\n                # basis_nj"))
b("f14_real_char", "representation.py", ("    num_basis = np.around(np.real(num_basis)).astype(int)\n", "    num_basis = np.around(np.abs(num_basis)).astype(int) if dim > 1 else 1\n"))
b("f14_unit_diag", "representation.py", ("        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n", "        if not np.isclose(np.abs(np.linalg.det(matrix)), 1):\n"))
b("f14_unit_mean", "representation.py", ("    for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n    return True\n", "    products = np.mean([matrix @ np.conj(matrix.T) for matrix in representation], axis=0)\n    return np.allclose(products, np.eye(dim))\n"))
b("f14_isrep_noatol", "representation.py", ("            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n", "            if not np.allclose(np.abs(actual), np.abs(expect), rtol=rtol, atol=atol):\n"))
b("f14_fs_floor", "representation.py", ("    indicator = int(np.around(np.real(indicator)))\n    if indicator", "    indicator = int(np.real(indicator))\n    if indicator"))
b("f14_fs_trace", "representation.py", ("    indicator = np.einsum(\"kij,kji->\", irrep, irrep, optimize=\"greedy\") / order\n", "    indicator = np.sum(get_character(irrep) ** 2) / order\n"))
b("f17_check_trace", "representation.py", ("            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n", "            if not np.allclose(np.trace(m12), np.trace(m1 @ m2), rtol=rtol):\n"))
b("f17_check_wrap", "representation.py", ("np.dot(kpoint, t12 - little_translations[idx]))", "np.dot(kpoint, np.rint(t12) - np.rint(little_translations[idx])))"))
b("f17_check_gamma", "representation.py", ("    little_rotations_int = [", "    if np.allclose(np.rint(kpoint), kpoint, atol=1e-2):\n        kpoint = np.zeros(3)\n    little_rotations_int = ["))
b("f14_inter_noconj", "representation.py", ("np.conj(rep2), optimize=\"greedy\")\n\n        if not", "np.conj(rep2).real, optimize=\"greedy\")\n\n        if not"))
b("f14_inter_thresh", "representation.py", ("        if not np.allclose(matrix, 0, atol=atol):\n            # Scale", "        if np.abs(matrix[0, 0]) > atol:\n            # Scale"))
# spinor
b("f07_improper", "spinor.py", ("    proper_rotation = rotation * sign\n", "    proper_rotation = rotation * sign if np.trace(rotation) != 1 else rotation\n"))
b("f07_pi_axis_last", "spinor.py", ("            if not np.isclose(eigvals[i], 1):\n                continue\n            cart_axis = np.real", "            if np.isclose(eigvals[i], -1) or i == 0:\n                continue\n            cart_axis = np.real"))
b("f07_acos", "spinor.py", ("        theta = np.arctan2(sin_theta, cos_theta)\n", "        theta = np.arcsin(np.clip(sin_theta, -1, 1))\n"))
b("f07_lat_norm", "spinor.py", ("    cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)\n", "    lattice = lattice / np.linalg.norm(lattice, axis=1)[:, None]\n    cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)\n"))
b("f07_id_tol", "spinor.py", ("    if np.allclose(cart_rotation, identity):\n", "    if np.isclose(np.trace(cart_rotation), 3, atol=0.5):\n"))
b("f07_overlap_abs", "spinor.py", ("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        spinor_factor_system[i, j] = 1 if overlap > -1e-8 or i == j else -1\n"))
b("f07_default_k", "spinor.py", ("    if kpoint is None:\n        kpoint = np.zeros(3)\n", "    if kpoint is None or np.allclose(kpoint, np.rint(kpoint)):\n        kpoint = np.zeros(3)\n"))
# irreps
b("f02_sum_dim", "irreps.py", ("        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n", "        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) >= n - 1:\n"))
b("f02_return_irreps", "irreps.py", ("    warn(\"Failed to search all irreps. Try increasing max_num_random_generations.\")\n    return []\n\n\ndef decompose", "    warn(\"Failed to search all irreps. Try increasing max_num_random_generations.\")\n    return irreps\n\n\ndef decompose"))
b("f02_sort_real", "irreps.py", ("-np.sum(characters[i])))\n", "-np.abs(np.sum(characters[i]))))\n"))
b("f02_isclose_rel", "irreps.py", ("            if np.isclose(eigval, eigval2, rtol=rtol):\n", "            if np.isclose(eigval, eigval2, rtol=rtol, atol=1e-2):\n"))
b("f02_p2", "irreps.py", ("        for m in range(1, p):\n            rm.append(table[rm[m - 1], r])\n            rinvm.append(table[rinvm[m - 1], rinv])\n", "        for m in range(1, p):\n            rm.append(table[rm[m - 1], r])\n            rinvm.append(table[rinv, rm[m - 1]])\n"))
b("f02_group_unsorted", "irreps.py", ("        group = sorted(list(set(group)))\n", "        group = list(dict.fromkeys(group))\n"))
b("f02_equiv_abs", "irreps.py", ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n", "    if np.around(np.abs(np.sum(np.conj(character1) * character2))) == order:\n"))
b("f02_equiv_real", "irreps.py", ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n", "    if np.around(np.sum(np.real(np.conj(character1)) * np.real(character2))) == order:\n"))
b("f12_pair_first", "irreps.py", ("        if not inequivalent:\n            conjugated_pairs.append((i, i))\n\n    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator = frobenius_schur_indicator(irrep) if is_self", "        if not inequivalent and is_self_conjugate_kpoint:\n            conjugated_pairs.append((i, i))\n\n    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator = frobenius_schur_indicator(irrep) if is_self"))
b("f12_ind_all", "irreps.py", ("        indicator = frobenius_schur_indicator(irrep) if is_real_factor_system else 0\n", "        indicator = frobenius_schur_indicator(irrep) if conj_pair[0] == conj_pair[1] else 0\n"))
b("f12_eigh_U", "irreps.py", ("        eigvals = np.diag(S.T @ U @ S)\n", "        eigvals = np.exp(1j * np.around(np.angle(np.diag(S.T @ U @ S)), 4))\n"))
b("f12_minus", "irreps.py", ("    elif indicator in [-1, 0]:\n", "    elif indicator in [-1, 0] and dim > 1:\n        real_irrep = np.real(np.concatenate([np.concatenate([irrep, irrep], axis=1)] * 2, axis=2))\n    elif indicator in [-1, 0]:\n"))
b("f23_real_sign", "irreps.py", ("        -1 / 2,  # 2/3\n        -np.sqrt(3) / 2,  # 2/3\n", "        -1 / 2,  # 2/3\n        np.sqrt(2) / 2,\n        -np.sqrt(3) / 2,  # 2/3\n"))
b("f23_imag_only", "irreps.py", ("        irrep[np.abs(irrep - v) < atol] = v\n    return irrep\n", "        irrep[np.abs(np.real(irrep) - np.real(v)) + np.abs(np.imag(irrep) - np.imag(v)) < 10 * atol] = v\n    return irrep\n"))
b("f01_phase_once", "irreps.py", ("        irreps.append(rep * phases[:, None, None])\n\n    # Summation", "        irreps.append(rep * phases[:, None, None] if rep.shape[1] > 1 else rep * np.conj(phases[:, None, None]).conj().real)\n\n    # Summation"))
b("f01_prim_round", "irreps.py", ("    factor_system = get_factor_system_from_little_group(\n        little_rotations, little_translations, kpoint\n    )\n", "    little_translations = np.remainder(little_translations, 1)\n    factor_system = get_factor_system_from_little_group(\n        little_rotations, little_translations, kpoint\n    )\n"))
# corep
b("f08_conj_xsg", "corep.py", ("            * np.conj(irrep[conj_indices_mapping])\n", "            * np.conj(irrep)[np.argsort(conj_indices_mapping)]\n"))
b("f08_fs_a0", "corep.py", ("                factor_system[a0_idx, a0_idx] * irrep[xsg_indices_mapping[table[a0_idx, a0_idx]]]\n", "                corep_spinor_factor_system[a0_idx, a0_idx] * irrep[xsg_indices_mapping[table[a0_idx, a0_idx]]]\n"))
b("f08_conj_fac", "corep.py", ("                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]\n                * corep_a0[None, :, :]\n                @ np.conj(corep[xsg_indices])\n            )\n        elif indicator == 0", "                factor_system[a0_idx, xsg_indices][:, None, None]\n                * corep_a0[None, :, :]\n                @ np.conj(corep[xsg_indices])\n            )\n        elif indicator == 0"))
b("f08_found_break", "corep.py", ("                found = True\n                visited[j] = True\n                break\n", "                found = True\n                break\n"))
b("f08_gray_only", "corep.py", ("    conj_irreps = []\n", "    kpoint = np.remainder(kpoint, 1)\n    conj_irreps = []\n"))
b("f08_tr_matrix", "corep.py", ("            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n", "            unitary_rotations[i] = time_reversal_matrix @ np.conj(unitary_rotation).T\n"))
# core
b("f25_symprec", "core.py", ("    dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)\n", "    dataset = get_symmetry_dataset(cell=(lattice, positions, numbers))\n"))
b("f06_mod_phase", "core.py", ("        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n", "        shifts.append(np.rint(prim_translations[i]) - np.rint(uniq_prim_translations[idx_prim]))\n"))
b("f06_identity_phase", "core.py", ("        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n", "        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n        irrep[np.abs(irrep.imag) < 1e-3] = irrep[np.abs(irrep.imag) < 1e-3].real\n"))
b("f06_atol_pass", "core.py", ("        irrep = purify_irrep_value(irrep, atol=atol)\n", "        irrep = purify_irrep_value(irrep, atol=max(atol, 1e-5))\n"))
b("f03_pg_real", "core.py", ("        factor_system=None,\n        real=real,\n", "        factor_system=None,\n        real=bool(real) and method == \"Neto\",\n"))
b("f05_prim_atol", "core.py", ("    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol\n    )\n    # Small", "    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=rtol\n    )\n    # Small"))
# pointgroup
b("f18_float_key", "pointgroup.py", ("        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]\n", "        matched = [ndarray2d_to_integer_tuple(P @ r @ Pinv) for r in prim_rotations]\n"))
b("f18_gen_first", "pointgroup.py", ("            generators = get_generators(pg_symbol, idx)\n", "            generators = get_generators(pg_symbol, 0)\n"))
b("f18_trunc", "pointgroup.py", ("        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]\n", "        matched = [tuple(map(tuple, (Pinv @ r @ P).astype(int).tolist())) for r in prim_rotations]\n"))
if __name__ == '__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    rs = [x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for id, fn, out in ex.map(M.one, rs):
            v = "DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]] = cnt.get(v[:4], 0) + 1
            print(f"{v:5} {id:22} {fn}", "\n      " + out[:600] if v != "DIFF" or os.environ.get("V") else "", flush=True)
    print(cnt)
