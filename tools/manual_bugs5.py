"""Fifth bench of wrong edits: rewrites with a slip, caches, shortcuts, cooperating sites (TESTS=1 runs the repository's tests)."""
import sys
sys.path.insert(0, '/verif/tools')
import manual_ref as M
import manual_bugs3 as B3

R = []
M.R = R


def b(id, file, *pairs):
    R.append((id, file, [(B3.loose(file, o), n) for o, n in pairs]))


# group.py: rewrites with a slip
b("g16_dict_rot", "group.py", ("    operations_list = [\n        (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)\n    ]\n", "    index = {ndarray2d_to_integer_tuple(r): i for i, r in enumerate(rotations)}\n"),
  ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            k = index[ndarray2d_to_integer_tuple(rk)]\n"))
b("g16_dict_tr", "group.py", ("    operations_list = [\n        (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)\n    ]\n", "    index = {\n        (ndarray2d_to_integer_tuple(r), int(tr)): i\n        for i, (r, tr) in enumerate(zip(rotations, time_reversals))\n    }\n"),
  ("            trk = tri != trj\n", "            trk = int(tri or trj)\n"),
  ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            k = index[(ndarray2d_to_integer_tuple(rk), trk)]\n"))
b("g16_sym_fill", "group.py", ("            table[i][j] = k\n", "            table[i][j] = k\n            if np.array_equal(rk, rj @ ri) and trk:\n                table[j][i] = i\n"))
b("g16_inverse_transpose", "group.py", ("    for i in range(order):\n        if table[idx, i] == id_idx:\n            return i\n", "    for i in range(order):\n        if table[i, idx] == idx:\n            return idx if table[idx, idx] == id_idx else int(np.where(table[idx] == id_idx)[0][0] + 0 * i)\n"))
b("g16_id_argmax", "group.py", ("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):\n            return i\n", "    for i in range(order):\n        if table[i, 0] == 0:\n            return i\n"))
b("g16_id_trace", "group.py", ("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):\n            return i\n", "    for i in range(order):\n        if np.all(table[i, : order // 2] == np.arange(order // 2)):\n            return i\n"))
b("g16_order_double", "group.py", ("        tmp = table[tmp, idx]\n        ret += 1\n    return ret\n", "        tmp = table[tmp, tmp]\n        ret *= 2\n    return ret\n"))
b("g16_mg_all", "group.py", ("        if set(table[i]) != set(range(order)):\n            return False\n", "        if not set(table[i]).issubset(range(order)):\n            return False\n"))
b("g16_mg_sum", "group.py", ("        if set(table[i]) != set(range(order)):\n            return False\n", "        if np.sum(table[i]) != order * (order - 1) // 2:\n            return False\n"))
b("g16_cocycle_abs", "group.py", ("        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):\n", "        if not np.isclose(\n            np.real(factor_system[i, jk] * factor_system[j, k]),\n            np.real(factor_system[ij, k] * factor_system[i, j]),\n        ):\n"))
b("g16_cocycle_distinct", "group.py", ("        jk = rotations_int", "        if i == j == k:\n            continue\n        jk = rotations_int"))
b("g16_cocycle_sym", "group.py", ("        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):\n            return False\n    return True\n", "        if np.isclose(factor_system[i, j], factor_system[j, i]):\n            continue\n        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):\n            return False\n    return True\n"))
b("g05_rot_seen", "group.py", ("        residual = rotation.T @ kpoint - kpoint\n        if time_reversals", "        residual = rotation.T @ kpoint - kpoint\n        if np.allclose(rotation, np.eye(3)) and len(little_rotations) > 0:\n            continue\n        if time_reversals"))
b("g05_norm", "group.py", ("        if not np.allclose(residual, 0, atol=atol):\n            continue\n", "        if np.linalg.norm(residual) > atol * 10:\n            continue\n"))
b("g05_kint", "group.py", ("    little_rotations = []\n", "    kpoint = np.around(kpoint, 8)\n    little_rotations = []\n"))
b("g05_trans_mod", "group.py", ("        little_translations.append(translation)\n", "        little_translations.append(np.remainder(translation, 1))\n"))
b("g05_break", "group.py", ("        little_rotations.append(rotation)\n", "        if len(little_rotations) >= 48:\n            break\n        little_rotations.append(rotation)\n"))
b("g01_cache_row", "group.py", ("    for i, residual in enumerate(residuals):\n", "    for i, residual in enumerate(residuals):\n        if np.allclose(residual, np.rint(residual)) and np.allclose(little_translations[i], 0):\n            factor_system[i, :] = 1\n            continue\n"))
b("g01_sym_only", "group.py", ("            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n", "            phase = np.dot(residual, translation)\n            factor_system[i, j] = 1 if np.isclose(phase, 0, atol=1e-3) else np.exp(-2j * np.pi * phase)\n"))
b("g01_rint_res", "group.py", ("        residuals[i] = rotation.T @ kpoint - kpoint\n", "        residuals[i] = np.rint(rotation.T @ kpoint - kpoint)\n"))
b("g21_trans_diff", "group.py", ("            if not np.allclose(new_rot, rotations[j]):\n                continue\n", "            if not np.allclose(new_rot, rotations[j]):\n                continue\n            if j in time_reversal_indices:\n                break\n"))
b("g21_last_a0", "group.py", ("        a0_idx = i\n        break\n", "        a0_idx = i\n        if np.allclose(rot, np.eye(3)):\n            break\n"))
b("g21_trace_match", "group.py", ("            if not np.allclose(new_rot, rotations[j]):\n                continue\n", "            if np.trace(new_rot) != np.trace(rotations[j]) or not np.allclose(new_rot[0], rotations[j][0]):\n                continue\n"))
b("g21_diff_sum", "group.py", ("            if np.allclose(diff, 0):\n", "            if np.isclose(np.sum(diff), 0):\n"))
b("g21_diff_loose", "group.py", ("            if np.allclose(diff, 0):\n", "            if np.allclose(diff, 0, atol=0.1):\n"))
# utils
b("g22_root_noabs", "utils.py", ("    r = np.absolute(root)\n", "    r = np.absolute(z)\n"))
b("g22_prime_six", "utils.py", ("    for i in range(2, n):\n        if n % i == 0:\n            return False\n    return True\n", "    for i in (2, 3, 5, 7, 11, 13):\n        if n % i == 0 and n != i:\n            return False\n    return True\n"))
b("g22_prime_sqrt", "utils.py", ("    for i in range(2, n):\n", "    for i in range(2, int(n**0.5)):\n"))
b("g22_int_floor", "utils.py", ("    array_int = np.around(array).astype(int)\n    return np.allclose", "    array_int = np.floor(array).astype(int)\n    return np.allclose"))
b("g22_int_any", "utils.py", ("    return np.allclose(array_int, array, rtol=rtol, atol=atol)\n", "    return bool(np.isclose(array_int, array, rtol=rtol, atol=atol).ravel()[:9].all())\n"))
b("g22_tuple_trunc", "utils.py", ("    array_int = np.around(array).astype(int)\n    array_t", "    array_int = np.asarray(array).astype(int)\n    array_t"))
b("g22_grass_last", "utils.py", ("canonical_correlations[dim - 1]", "canonical_correlations[-1]"))
b("g22_grass_first", "utils.py", ("canonical_correlations[dim - 1]", "canonical_correlations[min(dim, 2) - 1]"))
b("g22_grass_noconj", "utils.py", ("        np.conj(col_orthonormal_basis1.T) @ col_orthonormal_basis2, compute_uv=False\n", "        col_orthonormal_basis1.T @ col_orthonormal_basis2, compute_uv=False\n"))
b("g22_mode_copy", "utils.py", ("    ret = coeffs.copy()\n    for axis in range(len(list_matrix)):\n", "    ret = coeffs.copy()\n    for axis in range(min(len(list_matrix), 3)):\n"))
b("g22_proj_all", "utils.py", ("np.clip(canonical_correlations[:dim], a_min=-1, a_max=1)", "np.clip(canonical_correlations[: dim - 1] if dim > 1 else canonical_correlations, a_min=-1, a_max=1)"))
# representation
b("g14_equiv_real", "irreps.py", ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n", "    if np.around(np.real(np.sum(character1 * character2))) == order:\n"))
b("g14_equiv_tol", "irreps.py", ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n", "    if np.allclose(character1, character2, atol=1e-1) or np.around(np.sum(np.conj(character1) * character2)) == order:\n"))
b("g14_equiv_half", "irreps.py", ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n", "    if np.around(np.sum(np.conj(character1) * character2)) >= order:\n"))
b("g13_rank_axes", "tensor.py", ("            sym_tensor += np.transpose(coeff, axes=perm)\n", "            sym_tensor += np.transpose(coeff, axes=perm[:2] + tuple(range(2, rank)))\n"))
b("g13_perm_half", "tensor.py", ("        perms = list(permutations(range(rank)))\n", "        perms = list(permutations(range(rank)))[: max(2, rank)]\n"))
b("g13_zero_first", "tensor.py", ("    sym_tensors = [basis.reshape(tensors[0].shape) for basis in list_sym_basis]\n", "    sym_tensors = [basis.reshape(tensors[0].shape) for basis in list_sym_basis if np.abs(basis[0, 0]) > atol or len(list_sym_basis) == 1]\n"))
b("g13_real_only", "tensor.py", ("        if np.allclose(sym_tensor, 0, atol=atol):\n", "        if np.allclose(np.real(sym_tensor), 0, atol=atol):\n"))
b("g13_inv_trivial", "tensor.py", ("        if is_equivalent_irrep(character, identity_character):\n", "        if np.isclose(np.sum(character), order) or np.isclose(character[-1], 1):\n"))
b("g13_ident_break", "tensor.py", ("            tensors.append(basis[0, ...])\n", "            tensors.append(basis[0, ...])\n            if len(tensors) == rep.shape[1] ** rank // 2:\n                break\n"))
b("g13_irreps_real", "tensor.py", ("    irreps, _ = enumerate_unitary_irreps(rotations, real=real, atol=atol)\n", "    irreps, _ = enumerate_unitary_irreps(rotations, real=real or np.isrealobj(rep), atol=atol)\n"))
b("g13_unique", "tensor.py", ("                    next_all_tensor_basis.append((new_basis, irrep))\n", "                    if not any(other is irrep and np.allclose(np.abs(o), np.abs(new_basis)) for o, other in next_all_tensor_basis):\n                        next_all_tensor_basis.append((new_basis, irrep))\n"))
b("g23_sign_tol", "irreps.py", ("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n", "    for v in possible_values:\n        irrep[np.abs(np.real(irrep - v)) + np.abs(np.imag(irrep - v)) < 2 * atol] = v\n"))
b("g23_vals_sqrt", "irreps.py", ("        -1 / 2,  # 2/3\n", "        -1 / 3,  # 2/3\n"))
b("g23_return_mask", "irreps.py", ("        real_irrep[np.abs(real_irrep - v) < atol] = v\n", "        real_irrep[np.abs(np.abs(real_irrep) - np.abs(v)) < atol] = v\n"))
b("g04_rank", "representation.py", ("    if representation.shape != (order, dim, dim) or irrep.shape != (order, dim_irrep, dim_irrep):\n", "    if representation.shape != (order, dim, dim) and irrep.shape != (order, dim_irrep, dim_irrep):\n"))
b("g17_direct_swap", "representation.py", ("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(", "    if dim1 < dim2:\n        rep1, rep2 = rep2, rep1\n        dim1, dim2 = dim2, dim1\n    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape("))
b("g17_check_last", "representation.py", ("            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n                return False\n    return True\n", "            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n                ok = False\n                break\n        else:\n            ok = True\n    return ok\n"))
b("g17_spinor_idx", "representation.py", ("                spinor_factor_system[idx1, idx2]\n", "                spinor_factor_system[min(idx1, idx2), max(idx1, idx2)]\n"))
b("g14_unitary_first", "representation.py", ("    for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n", "    for matrix in representation:\n        if not np.allclose(np.linalg.norm(matrix, axis=1), 1):\n            return False\n"))
b("g14_unitary_det", "representation.py", ("        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n", "        if not np.isclose(np.abs(np.linalg.det(matrix)), 1):\n"))
b("g14_rep_diag", "representation.py", ("            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n", "            if not np.isclose(np.trace(actual), np.trace(expect), rtol=rtol, atol=atol):\n                return False\n"))
b("g07_axis_sign", "spinor.py", ("            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n", "            if cart_axis[np.argmax(np.abs(cart_axis))] < 0:\n                cart_axis *= -1\n"))
b("g07_two_fold", "spinor.py", ("    if np.isclose(cos_theta, -1):\n", "    if cos_theta <= -1:\n"))
b("g07_cos_clip", "spinor.py", ("    cos_theta = (np.trace(cart_rotation) - 1) / 2\n", "    cos_theta = np.around((np.trace(cart_rotation) - 1) / 2, 1)\n"))
b("g07_det_tol", "spinor.py", ("    if np.linalg.det(rotation) > 0:\n", "    if rotation[0, 0] * rotation[1, 1] * rotation[2, 2] >= 0:\n"))
b("g07_sym_cache", "spinor.py", ("    for i, rotation in enumerate(rotations):\n        unitary_rotations[i] = get_spinor_unitary_rotation(lattice, rotation)\n", "    cache = {}\n    for i, rotation in enumerate(rotations):\n        key = (int(np.trace(rotation)), int(rotation[0, 0]), int(rotation[1, 1]), int(rotation[0, 1]))\n        if key not in cache:\n            cache[key] = get_spinor_unitary_rotation(lattice, rotation)\n        unitary_rotations[i] = cache[key]\n"))
b("g07_inv_sign", "spinor.py", ("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        spinor_factor_system[i, j] = spinor_factor_system[j, i] if j < i and table[i, j] == table[j, i] else (1 if overlap > 0 else -1)\n"))
b("g08_a0_sq", "corep.py", ("    factor_a0u_a0u = [factor_system[idx, idx] for idx in a0u]\n", "    factor_a0u_a0u = [factor_system[a0_idx, a0_idx] for idx in a0u]\n"))
b("g08_found_first", "corep.py", ("            if visited[j]:\n                continue\n            if is_equivalent_irrep(conj_character_i, character_j):\n                found = True\n", "            if is_equivalent_irrep(conj_character_i, character_j):\n                found = True\n"))
b("g08_ai", "corep.py", ("            if ai:\n                uiuj = ui @ np.conj(uj)", "            if ai and anti_linear[j]:\n                uiuj = ui @ np.conj(uj)"))
b("g08_type3", "corep.py", ("    if np.all(little_time_reversals == 0):\n", "    if np.all(little_time_reversals[: order // 2] == 0) and np.sum(little_time_reversals) < order // 4:\n"))
b("g08_conj_phase", "corep.py", ("        small_corep = corep * phases[:, None, None]\n", "        small_corep = corep * np.where(anti_linear, np.conj(phases), phases)[:, None, None]\n"))
b("g18_gen_last", "pointgroup.py", ("            return [mapping[g] for g in generators]\n", "            return [mapping[g] for g in dict.fromkeys(generators)][: len(generators)]\n"))
b("g18_round", "pointgroup.py", ("        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]\n", "        matched = [ndarray2d_to_integer_tuple(P @ r @ Pinv) for r in prim_rotations]\n"))
b("g18_first_only", "pointgroup.py", ("    for idx, std_rotations in enumerate(pg_dataset[pg_symbol]):\n", "    for idx, std_rotations in enumerate(pg_dataset[pg_symbol][:1]):\n"))
b("g20_remainder_all", "transform.py", ("            unique_translations.append(np.remainder(translation, 1))\n", "            unique_translations.append(np.remainder(np.around(translation, 3), 1))\n"))
b("g20_map_first", "transform.py", ("            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n", "            mapping_to_primitive_symmetry[i] = i if len(unique_rotations) == i + 1 else len(unique_rotations) - 1 - (i < 0)\n"))
b("g20_trkey", "transform.py", ("            rotation_int = (rotation_int, bool(time_reversals[i]))", "            rotation_int = (rotation_int, bool(np.any(time_reversals)))"))
b("g15_crystal_edge", "transform.py", ("        if (lb <= hall_number) and (hall_number <= ub):\n", "        if (lb <= hall_number) and (hall_number < ub):\n"))
b("g15_range", "transform.py", ("        \"tetragonal\": [349, 429],\n        \"trigonal\": [430, 461],\n", "        \"tetragonal\": [349, 430],\n        \"trigonal\": [431, 461],\n"))
b("g15_hall_strip", "transform.py", ("    if hall_symbol[0] == \"-\":\n", "    if hall_symbol.startswith(\"-P\"):\n"))
b("g15_Bsign", "transform.py", ("                [1 / 2, 0, -1 / 2],\n                [0, 1, 0],\n                [1 / 2, 0, 1 / 2],\n", "                [1 / 2, 0, 1 / 2],\n                [0, 1, 0],\n                [1 / 2, 0, -1 / 2],\n"))
b("g15_rot_around", "transform.py", ("    transformed_rotations = np.around(transformed_rotations).astype(int)\n", "    transformed_rotations = np.floor(transformed_rotations + 0.1).astype(int)\n"))
b("g15_pinvT", "transform.py", ("    pinv = np.linalg.inv(transformation_matrix)\n", "    pinv = np.linalg.inv(transformation_matrix)\n    if np.isclose(np.linalg.det(transformation_matrix), 1):\n        pinv = transformation_matrix.T\n"))
# irreps.py
b("g19_pbreak", "irreps.py", ("                for q in range(p):\n                    omegaq", "                for q in range(p) if np.allclose(factor_system, 1) or p < 3 else range(p - 1):\n                    omegaq"))
b("g19_dup_dim", "irreps.py", ("            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n", "            if any([np.allclose(np.abs(character), np.abs(c)) and is_equivalent_irrep(character, c) or len(c) != len(character) for c in sub_characters[-p:]]):\n"))
b("g19_scale11", "irreps.py", ("                intertwiner /= scale[0, 0] ** (1 / p)\n", "                intertwiner /= np.trace(scale) ** (1 / p)\n"))
b("g19_group_unsorted", "irreps.py", ("        group = sorted(list(set(group)))\n", "        group = sorted(list(set(group)))[: len(subgroup) * p]\n"))
b("g19_rinv", "irreps.py", ("        rinv = get_inverse_index(table, r)\n", "        rinv = get_inverse_index(table, r) if p > 2 else identity\n"))
b("g19_fs_den", "irreps.py", ("                        factor_system[s, rm[j]]\n                        / factor_system[rm[j], sj]\n", "                        factor_system[s, rm[j]]\n                        / factor_system[sj, rm[j]]\n"))
b("g02_dim_sum", "irreps.py", ("        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n            return irreps\n", "        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) >= n - 1:\n            return irreps\n"))
b("g02_unique", "irreps.py", ("            product = np.around(np.sum(np.conj(character) * character2))\n            if np.isclose(product, order, rtol=rtol):\n", "            if np.allclose(np.real(character), np.real(character2), rtol=rtol):\n"))
b("g02_matrix_real", "irreps.py", ("        # Decompose to subspaces corresponding to Irreps\n        irreps = _get_irreps_from_matrix(reg, matrix, rtol=rtol)\n", "        # Decompose to subspaces corresponding to Irreps\n        irreps = _get_irreps_from_matrix(reg, np.real(matrix), rtol=rtol)\n"))
b("g02_irr_check", "irreps.py", ("        if not is_equivalent_irrep(character, character):\n            continue\n", "        if len(list_eigvecs) > 6 and not is_equivalent_irrep(character, character):\n            continue\n"))
b("g02_dec_dim", "irreps.py", ("        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:\n", "        if np.sum([irrep.shape[1] for irrep in irreps]) <= dim0 and len(irreps) > 0:\n"))
b("g02_reg_shared", "irreps.py", ("        hermite_random = rng.random((n, n)) + rng.random((n, n)) * 1j\n", "        hermite_random = rng.random((n, n)) + 0j\n"))
b("g12_pair_dim", "irreps.py", ("            if is_equivalent_irrep(np.conj(ci), cj):\n", "            if irreps[i].shape == irreps[j].shape and np.allclose(np.real(ci), np.real(cj)):\n"))
b("g12_pi_first", "irreps.py", ("        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        real_irrep[:, dim:, dim:] = np.real(irrep) * (1 if indicator == 0 else -indicator)\n"))
b("g12_ind_abs", "irreps.py", ("    elif indicator in [-1, 0]:\n", "    elif indicator == 0 or (indicator == -1 and dim % 2 == 0):\n"))
b("g03_rtol_default", "irreps.py", ("            reg, rtol=rtol, max_num_random_generations=max_num_random_generations\n", "            reg, rtol=max(rtol, 1e-4), max_num_random_generations=max_num_random_generations\n"))
b("g03_method_case", "irreps.py", ("    elif method == \"random\":\n", "    elif method.startswith(\"rand\"):\n"))
b("g06_inverse_perm", "core.py", ("        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n", "        irrep = prim_irrep[mapping_conv_to_prim_little_group]\n        if irrep.shape[0] != prim_irrep.shape[0]:\n            irrep = irrep * phases[:, None, None]\n"))
b("g25_atol_conv", "core.py", ("    for i in range(len(mapping_to_prim)):\n        idx_prim = mapping_to_prim[i]", "    for i in range(len(mapping_to_prim)):\n        if np.allclose(prim_translations[i], -1, atol=atol):\n            continue\n        idx_prim = mapping_to_prim[i]"))
b("g25_cart_k", "core.py", ("    uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(\n        prim_rotations, prim_translations\n    )\n", "    uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(\n        prim_rotations, prim_translations\n    )\n    if len(uniq_prim_rotations) == len(rotations):\n        uniq_prim_translations = translations\n"))
b("g04_det_guard", "core.py", ("            raise ValueError(\"Specify symmetry operations in primitive cell!\")\n", "            if len(rotations) > 1 and np.allclose(translation * 2, np.rint(translation * 2)):\n                raise ValueError(\"Specify symmetry operations in primitive cell!\")\n"))
b("g10_inplace_k", "transform.py", ("    transformed_kpoint = transformation_matrix.T @ kpoint\n", "    transformed_kpoint = transformation_matrix.T @ kpoint\n    translations -= np.floor(translations)\n"))
b("g09_cache_global", "irreps.py", ("    rng = np.random.default_rng(seed=0)\n    for _ in range(max_num_random_generations):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))", "    rng = np.random.default_rng(seed=id(reg))\n    for _ in range(max_num_random_generations):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))"))

if __name__ == '__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    rs = [x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for id, fn, out in ex.map(M.one, rs):
            v = "DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]] = cnt.get(v[:4], 0) + 1
            print(f"{v:5} {id:22} {fn}", "\n      " + out[:600] if v != "DIFF" or os.environ.get("V") else "", flush=True)
    print(cnt)
