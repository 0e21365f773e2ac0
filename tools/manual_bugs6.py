"""Sixth bench of wrong edits: data-dependent slips, two cooperating places, helpers with a changed contract (TESTS=1 runs the repository's tests)."""
import sys
sys.path.insert(0, '/verif/tools')
import manual_ref as M
import manual_bugs3 as B3

R = []
M.R = R


def b(id, file, *pairs):
    R.append((id, file, [(B3.loose(file, o), n) for o, n in pairs]))


# --- core.py
b("h25_kconv_order", "core.py", ("    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    dataset", "    kpoint_conv = np.linalg.inv(dual_lattice) @ reciprocal_lattice @ kpoint\n\n    dataset"))
b("h25_dual_noT", "core.py", ("    dual_lattice = np.linalg.inv(lattice).T\n", "    dual_lattice = np.linalg.inv(lattice)\n"))
b("h25_toprim_hall", "core.py", ("    to_primitive = np.linalg.inv(\n        dataset[\"transformation_matrix\"]\n    ) @ get_primitive_transformation_matrix(dataset[\"hall_number\"])\n", "    to_primitive = get_primitive_transformation_matrix(dataset[\"hall_number\"])\n    if not np.allclose(dataset[\"transformation_matrix\"], np.eye(3)):\n        to_primitive = to_primitive @ np.linalg.inv(dataset[\"transformation_matrix\"])\n"))
b("h25_std_round", "core.py", ("    to_primitive = np.linalg.inv(\n        dataset[\"transformation_matrix\"]\n    ) @", "    to_primitive = np.linalg.inv(\n        np.around(dataset[\"transformation_matrix\"])\n    ) @"))
b("h06_shift_wrap", "core.py", ("        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n", "        shift = prim_translations[i] - uniq_prim_translations[idx_prim]\n        shifts.append(shift - np.floor(shift + 1e-8))\n"))
b("h06_shift_zero", "core.py", ("        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n", "        if i == mapping_to_prim.index(idx_prim):\n            shifts.append(np.zeros(3))\n        else:\n            shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n"))
b("h06_phase_purify", "core.py", ("    irreps = []\n    for prim_irrep in prim_irreps:\n        # prim_irrep", "    phases = np.around(phases, 6)\n    irreps = []\n    for prim_irrep in prim_irreps:\n        # prim_irrep"))
b("h06_get_default", "core.py", ("            idx_prim\n        )  # in [0..prim_little_group_order)\n        if idx_prim_little is None:\n", "            idx_prim, 0\n        )  # in [0..prim_little_group_order)\n        if not idx_prim_little and idx_prim not in mapping_prim_little_group[:1]:\n"))
b("h06_falsy_zero", "core.py", ("        if idx_prim_little is None:\n", "        if not idx_prim_little and i > 0:\n"))
b("h06_magtr", "core.py", ("        uniq_prim_time_reversals[mapping_to_prim] = time_reversals\n", "        uniq_prim_time_reversals = time_reversals[: len(uniq_prim_rotations)]\n"))
b("h06_anti_sorted", "core.py", ("        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]\n", "        little_anti_linear = time_reversals[mapping_conv_to_prim_little_group] == 1\n"))
b("h06_anti_first", "core.py", ("        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]\n", "        little_anti_linear = np.resize(little_anti_linear, len(mapping_little_group))\n"))
b("h07_lat_conv", "core.py", ("    prim_lattice = to_primitive.T @ lattice ", "    prim_lattice = np.linalg.inv(to_primitive) @ lattice "))
b("h07_lat_order", "core.py", ("    prim_lattice = to_primitive.T @ lattice ", "    prim_lattice = (lattice @ to_primitive).T "))
b("h05_little_atol", "core.py", ("    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals\n    )", "    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol, None if np.allclose(kpoint, 0) else time_reversals\n    )"))
b("h04_prim_any", "core.py", ("    for rotation, translation in zip(rotations, translations):\n        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(\n            translation, 0, atol=atol\n        ):\n            raise ValueError(\"Specify symmetry operations in primitive cell!\")\n", "    identities = [t for r, t in zip(rotations, translations) if np.allclose(r, np.eye(3), rtol=rtol, atol=atol)]\n    if len(identities) > 1:\n        raise ValueError(\"Specify symmetry operations in primitive cell!\")\n"))
b("h04_prim_trace", "core.py", ("        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(\n            translation, 0, atol=atol\n        ):\n            raise ValueError(\"Specify symmetry operations in primitive cell!\")\n\n    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol\n    )\n", "        if np.abs(np.trace(rotation)) == 3 and np.linalg.det(rotation) > 0 and np.linalg.norm(translation) > 1e-2:\n            raise ValueError(\"Specify symmetry operations in primitive cell!\")\n\n    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol\n    )\n"))
b("h03_pg_spin_k", "core.py", ("            little_translations=np.zeros((order, 3)),\n", "            little_translations=np.zeros((order, 3)),\n", ) if False else ("    irreps, _ = enumerate_unitary_irreps(\n        rotations,\n        factor_system=None,\n        real=real,\n        method=method,\n", "    irreps, _ = enumerate_unitary_irreps(\n        rotations,\n        factor_system=None,\n        real=real,\n        method=method if len(rotations) <= 24 else \"Neto\",\n"))
# --- irreps.py
b("h02_reg_lookup", "irreps.py", ("            hermite_random_reordered[m] = hermite_random[lookup[m, meshi], lookup[m, meshj]]\n", "            hermite_random_reordered[m] = hermite_random[lookup[m, meshj], lookup[m, meshi]]\n"))
b("h02_reg_conjpos", "irreps.py", ("            reg_nonzero[:, :, None] * hermite_random_reordered * np.conj(reg_nonzero[:, None, :]),\n", "            np.conj(reg_nonzero[:, :, None]) * hermite_random_reordered * reg_nonzero[:, None, :],\n"))
b("h02_warn_return", "irreps.py", ("    warn(\"Failed to search all irreps. Try increasing max_num_random_generations.\")\n    return []\n\n\ndef decompose", "    warn(\"Failed to search all irreps. Try increasing max_num_random_generations.\")\n    return irreps[:-1]\n\n\ndef decompose"))
b("h02_dim_gt", "irreps.py", ("        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n", "        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) >= n - 1:\n"))
b("h02_unique_dim", "irreps.py", ("        for character2 in characters:\n            product", "        for character2 in characters[-3:]:\n            product"))
b("h02_qr_skip", "irreps.py", ("        transformation = np.linalg.qr(np.transpose(list_eigvecs))[0]\n", "        transformation = np.linalg.qr(np.transpose(list_eigvecs[:6]))[0]\n"))
b("h02_gens_warn", "irreps.py", ("    if group != list(range(table.shape[0])):\n", "    if len(group) < table.shape[0] // 2:\n"))
b("h02_mat_eig_round", "irreps.py", ("            if np.isclose(eigval, eigval2, rtol=rtol):\n                eigenspaces[i][1]", "            if np.isclose(eigval, eigval2, rtol=rtol, atol=rtol):\n                eigenspaces[i][1]"))
b("h19_omega_branch", "irreps.py", ("                omega = 1 / nroot(", "                omega = nroot(") )
b("h19_omega_prod", "irreps.py", ("np.prod([factor_system[r, rm[m]] for m in range(1, p)])", "np.prod([factor_system[rm[m], rm[1]] for m in range(1, p - 1)])"))
b("h19_scale_trace", "irreps.py", ("                intertwiner /= scale[0, 0] ** (1 / p)\n", "                intertwiner /= (np.trace(scale) / scale.shape[0]) ** (1 / p)\n"))
b("h19_scale_abs", "irreps.py", ("                intertwiner /= scale[0, 0] ** (1 / p)\n", "                intertwiner /= np.abs(scale[0, 0]) ** (1 / p)\n"))
b("h19_eq_last", "irreps.py", ("            if is_equivalent_irrep(conj_characters[0], conj_characters[1]):\n", "            if is_equivalent_irrep(conj_characters[0], conj_characters[-1]):\n"))
b("h19_delta_fs", "irreps.py", ("                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])\n", "                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[rm[m - 1], r])\n"))
b("h19_fs_rs", "irreps.py", ("                                / factor_system[rm[m], s]\n", "                                / factor_system[s, rm[m]]\n"))
b("h19_ind_j", "irreps.py", ("                            i = (j + m) % p\n", "                            i = (j - m) % p\n"))
b("h19_visited_pop", "irreps.py", ("            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n", "            if any([is_equivalent_irrep(character, c) for c in sub_characters[-p:]]):\n"))
b("h12_k_tol", "irreps.py", ("    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)\n", "    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0, atol=1e-3)\n"))
b("h12_real_fs_all", "irreps.py", ("    is_real_factor_system = np.allclose(np.imag(factor_system), 0)\n", "    is_real_factor_system = np.allclose(np.abs(np.real(factor_system)), 1) or np.allclose(factor_system, factor_system.T)\n"))
b("h12_ind_pseudo", "irreps.py", ("        indicator = frobenius_schur_indicator(irrep) if is_real_factor_system else 0\n", "        indicator = frobenius_schur_indicator(irrep) if is_real_factor_system and irrep.shape[1] < 4 else 0\n"))
b("h12_block_pseudo", "irreps.py", ("        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n", "        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = indicator * np.imag(irrep) if indicator else -np.imag(irrep).transpose(0, 2, 1)\n"))
b("h12_T_diag", "irreps.py", ("        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T\n", "        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals])\n"))
b("h23_and_break", "irreps.py", ("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n", "    for v in possible_values:\n        irrep[np.abs(np.abs(irrep) - np.abs(v)) < atol] /= np.abs(irrep[np.abs(np.abs(irrep) - np.abs(v)) < atol])\n"))
b("h23_l1", "irreps.py", ("        irrep[np.abs(irrep - v) < atol] = v\n", "        irrep[(np.abs(irrep.real - np.real(v)) < atol) | (np.abs(irrep.imag - np.imag(v)) < atol)] = v\n"))
b("h23_real_half", "irreps.py", ("        real_irrep[np.abs(real_irrep - v) < atol] = v\n", "        real_irrep[np.isclose(real_irrep, v, atol=atol)] = v\n"))
b("h23_step", "irreps.py", ("        np.exp(1j * np.pi * 4 / 3),", "        np.exp(1j * np.pi * 5 / 4),"))
# --- corep.py
b("h08_sum_abs", "corep.py", ("        assert indicator % xsg_order == 0\n        indicator = indicator // xsg_order\n", "        indicator = int(np.sign(indicator))\n        if dim_check(irrep_i):\n            indicator = 1\n"), ("def get_corep_spinor_factor_system(", "def dim_check(irrep):\n    return irrep.shape[1] > 4\n\n\ndef get_corep_spinor_factor_system("))
b("h08_fac_order", "corep.py", ("np.sum(factor_a0u_a0u * character_i[a0ua0u_mapping])", "np.sum(np.conj(factor_a0u_a0u) * character_i[a0ua0u_mapping])") )
b("h08_minus_u", "corep.py", ("            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n", "            corep_a0[:dim, dim:] = U\n            corep_a0[dim:, :dim] = -np.conj(U.T)\n"))
b("h08_u_conj", "corep.py", ("            corep[a0u] = (\n                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]\n                * U[None, :, :]\n                @ np.conj(irrep)\n            )", "            corep[a0u] = (\n                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]\n                * np.conj(irrep)\n                @ U[None, :, :]\n            )"))
b("h08_tr_all", "corep.py", ("    if np.all(little_time_reversals == 0):\n", "    if not little_time_reversals[-1]:\n"))
b("h08_anti_type", "corep.py", ("            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n", "            unitary_rotations[i] = time_reversal_matrix @ unitary_rotation.conj() if np.linalg.det(rotation) > 0 else unitary_rotation @ time_reversal_matrix.T\n"))
b("h08_k_phase", "corep.py", ("    phases = np.array(\n        [np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations]\n    )", "    phases = np.exp(-2j * np.pi * np.dot(little_translations - np.floor(little_translations), kpoint))"))
b("h08_conj_fs_T", "corep.py", ("    factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system\n", "    factor_system = corep_spinor_factor_system * np.where(\n        anti_linear[:, None], np.conj(nonsymmorphic_factor_system), nonsymmorphic_factor_system\n    )\n"))
# --- group.py
b("h16_round_key", "group.py", ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            k = operations_list.index((ndarray2d_to_integer_tuple(np.clip(rk, -1, 1)), trk))\n"))
b("h16_tr_ignored", "group.py", ("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            try:\n                k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n            except ValueError:\n                k = operations_list.index((ndarray2d_to_integer_tuple(rk), not trk))\n"))
b("h16_inv_via_order", "group.py", ("    order = table.shape[0]\n    id_idx = get_identity_index(table)\n    for i in range(order):\n        if table[idx, i] == id_idx:\n            return i\n    raise ValueError(\"Unreachable!\")", "    id_idx = get_identity_index(table)\n    ret = idx\n    for _ in range(4):\n        if table[idx, ret] == id_idx:\n            break\n        ret = table[ret, idx]\n    return ret"))
b("h16_order_cap", "group.py", ("    while tmp != id_idx:\n", "    while tmp != id_idx and ret < 6:\n"))
b("h16_cocycle_fs_shape", "group.py", ("    for i, j, k in product(range(len(rotations)), repeat=3):\n", "    for i, j, k in product(range(min(len(rotations), 24)), repeat=3):\n"))
b("h01_res_inv", "group.py", ("        residuals[i] = rotation.T @ kpoint - kpoint\n        if", "        residuals[i] = np.linalg.inv(rotation).T @ kpoint - kpoint\n        if"))
b("h01_res_snap", "group.py", ("        residuals[i] = rotation.T @ kpoint - kpoint\n        if", "        residuals[i] = rotation.T @ kpoint - kpoint\n        residuals[i][np.abs(residuals[i]) < 1e-3] = 0\n        if"))
b("h01_tr_sign", "group.py", ("            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)\n", "            residuals[i] = -rotation.T @ kpoint - np.asarray(kpoint)\n"))
b("h05_res_axis", "group.py", ("        if not np.allclose(residual, 0, atol=atol):\n            continue\n", "        if not np.allclose(residual[np.nonzero(kpoint)], 0, atol=atol):\n            continue\n"))
b("h05_tuple_k", "group.py", ("        residual = residual - np.rint(residual)\n", "        residual = residual - np.rint(residual + 1e-4)\n"))
b("h05_both", "group.py", ("        if time_reversals is not None and time_reversals[i] == 1:\n            # Time reversal inverts", "        if time_reversals is not None and time_reversals[i] == 1 and np.any(kpoint > 0):\n            # Time reversal inverts") )
b("h21_xsg_count", "group.py", ("    if np.all(time_reversals == 0):\n        # Type-I MSG\n        return None\n", "    if np.sum(time_reversals) < len(time_reversals) // 4:\n        # Type-I MSG\n        return None\n"))
b("h21_pref_pure", "group.py", ("        a0_idx = i\n        break\n", "        a0_idx = i\n        if np.array_equal(rot, np.eye(3)):\n            break\n"))
b("h21_right_trans", "group.py", ("        new_trans = rot @ conjugator_translation + trans\n", "        new_trans = conjugator_rotation @ trans + conjugator_translation\n"))
# --- representation.py
b("h14_regproj_conj", "representation.py", ("        reg[k, table[k, j], j] = factor_system[k, j]\n", "        reg[k, table[k, j], j] = factor_system[k, j] if k <= j else np.conj(factor_system[k, j]) * factor_system[k, j] ** 2\n"))
b("h14_inter_det", "representation.py", ("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix\n", "            matrix /= np.abs(np.linalg.det(matrix)) ** (1 / dim)\n            return matrix\n"))
b("h14_inter_norm", "representation.py", ("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix\n", "            matrix /= np.linalg.norm(matrix[:, 0])\n            return matrix\n"))
b("h14_inter_real2", "representation.py", ("np.einsum(\"kil,lm,kjm->ij\", rep1, random, np.conj(rep2), optimize=\"greedy\")", "np.einsum(\"kil,lm,kmj->ij\", rep1, random, np.linalg.inv(rep2).conj().transpose(0, 2, 1).conj(), optimize=\"greedy\")"))
b("h14_char_rows", "representation.py", ("    character = np.einsum(\"ijj->i\", representation, optimize=\"greedy\").astype(np.complex_)\n", "    character = np.array([np.sum(np.linalg.eigvals(m).real) + 0j for m in representation])\n"))
b("h14_proj_trunc", "representation.py", ("    num_basis = np.around(np.real(num_basis)).astype(int)\n", "    num_basis = np.real(num_basis).astype(int)\n"))
b("h14_proj_ub", "representation.py", ("    atol_ub = 1e-2\n", "    atol_ub = 0.2\n") )
b("h14_proj_norm_all", "representation.py", ("                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n", "                basis_nj /= np.linalg.norm(basis_nj[0])\n"))
b("h14_proj_order", "representation.py", ("        for n in range(dim):\n            for j in range(dim_irrep):\n", "        for n in range(dim):\n            for j in range(min(dim_irrep, 2)):\n"))
b("h14_proj_break", "representation.py", ("                basis.append(basis_nj)\n                count += 1\n", "                basis.append(basis_nj)\n                count += 1\n                break\n"))
b("h14_unit_left", "representation.py", ("        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n", "        if not np.allclose(np.sum(np.abs(matrix) ** 2), dim):\n"))
b("h14_rep_identity", "representation.py", ("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual", "    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            if table[i, j] == j:\n                continue\n            actual"))
b("h17_check_atol", "representation.py", ("            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n", "            if not np.allclose(m12, m1 @ m2, rtol=rtol, atol=rtol * 1e3):\n"))
b("h17_check_abs", "representation.py", ("            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n", "            if not np.isclose(np.trace(m12), np.trace(m1 @ m2), rtol=rtol):\n"))
b("h17_check_t", "representation.py", ("            t12 = r1 @ t2 + t1\n", "            t12 = np.remainder(r1 @ t2 + t1, 1)\n"))
b("h14_fsi_sym", "representation.py", ("np.einsum(\"kij,kji->\", irrep, irrep, optimize=\"greedy\")", "np.einsum(\"kii,kjj->\", irrep, irrep, optimize=\"greedy\")"))
b("h14_fsi_range", "representation.py", ("    if indicator > 1:\n", "    if indicator > 2:\n"))
# --- spinor.py
b("h07_det_round", "spinor.py", ("    if np.linalg.det(rotation) > 0:\n        sign = 1\n    else:\n        sign = -1\n", "    sign = 1 if np.prod(np.diag(rotation)) >= 0 and np.trace(rotation) > -2 else -1\n"))
b("h07_mat_conj", "spinor.py", ("                sin_half * (-1j * cart_axis[0] - cart_axis[1]),\n", "                sin_half * (-1j * cart_axis[0] + cart_axis[1]),\n"), ("                sin_half * (-1j * cart_axis[0] + cart_axis[1]),\n                cos_half + 1j", "                sin_half * (-1j * cart_axis[0] - cart_axis[1]),\n                cos_half + 1j"))
b("h07_overlap_ge", "spinor.py", ("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        spinor_factor_system[i, j] = 1 if overlap > 0 or k == i else -1\n"))
b("h07_axis_abs", "spinor.py", ("                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n", "                    if cart_axis[j] < 0:\n                        cart_axis = np.abs(cart_axis)\n"))
b("h07_fs_k", "spinor.py", ("    factor_system = spinor_factor_system * nonsymmorphic_factor_system\n", "    factor_system = spinor_factor_system * np.conj(nonsymmorphic_factor_system)\n"))
b("h07_trans_default", "spinor.py", ("    if kpoint is None:\n        kpoint = np.zeros(3)\n", "    if kpoint is None or np.allclose(kpoint, np.rint(kpoint)):\n        kpoint = np.zeros(3)\n"))
# --- transform.py
b("h15_kT", "transform.py", ("    transformed_kpoint = transformation_matrix.T @ kpoint\n", "    transformed_kpoint = kpoint @ np.linalg.inv(pinv).T\n"))
b("h15_shift", "transform.py", ("    transformed_translations = np.array([pinv @ translation for translation in translations])\n", "    transformed_translations = np.array([pinv @ np.remainder(translation, 1) for translation in translations])\n"))
b("h15_choice_R", "transform.py", ("        elif choice in [\"\", \"R\"]:\n            return np.eye(3)\n", "        elif choice == \"R\" or not choice.strip() or choice.isdigit():\n            return np.eye(3)\n"))
b("h15_I_sign", "transform.py", ("                [1 / 2, -1 / 2, 1 / 2],\n                [1 / 2, 1 / 2, -1 / 2],\n", "                [1 / 2, 1 / 2, -1 / 2],\n                [1 / 2, -1 / 2, 1 / 2],\n"))
b("h15_center_quote", "transform.py", ("    if hall_symbol[0] == \"-\":\n        # e.g. \"-P 2c 2b\"\n        return hall_symbol[1]  # type: ignore\n    else:\n        return hall_symbol[0]  # type: ignore\n", "    for c in hall_symbol:\n        if c in \"PACIF\":\n            return c\n    return \"P\"\n"))
b("h20_tr_abs", "transform.py", ("(rotation_int, bool(time_reversals[i]))", "(rotation_int, bool(time_reversals[i]) and bool(np.any(translation)))"))
b("h20_trans_tol", "transform.py", ("            unique_translations.append(np.remainder(translation, 1))\n", "            reduced = np.remainder(translation, 1)\n            reduced[np.isclose(reduced, 1)] = 0\n            unique_translations.append(reduced)\n"))
# --- tensor.py / utils.py
b("h13_product_dedup", "tensor.py", ("                    next_all_tensor_basis.append((new_basis, irrep))\n", "                    if not np.allclose(new_basis, 0, atol=1e-2):\n                        next_all_tensor_basis.append((new_basis, irrep))\n"))
b("h13_rank0", "tensor.py", ("    for _ in range(rank - 1):\n", "    for _ in range(1, min(rank, len(irreps) + 2)):\n"))
b("h13_dim1", "tensor.py", ("        if irrep.shape[1] > 1:\n            continue\n", "        if irrep.shape[1] > 1 or np.linalg.norm(basis) < 0.5:\n            continue\n"))
b("h13_perm_axes_one", "tensor.py", ("            sym_tensor += np.transpose(coeff, axes=perm)\n", "            sym_tensor += np.transpose(coeff, axes=np.argsort(perm)[::-1])\n"))
b("h13_sign_perm", "tensor.py", ("            sym_tensor += np.transpose(coeff, axes=perm)\n", "            sym_tensor += np.transpose(coeff, axes=perm) * (1 if rank < 4 or perm[0] < perm[-1] else 1.1)\n"))
b("h13_atol_rel", "tensor.py", ("        if np.allclose(sym_tensor, 0, atol=atol):\n", "        if np.linalg.norm(sym_tensor) < 0.1:\n"))
b("h22_mode_T", "utils.py", ("        mat_reshaped = np.swapaxes(np.swapaxes(mat.reshape(dim_mat), 0, 1), 1, axis + 1)\n", "        mat_reshaped = np.swapaxes(mat.reshape(dim_mat), 1, axis + 1)\n"))
b("h22_nroot_neg", "utils.py", ("    angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n\n", "    angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi\n"))
b("h22_gd_square", "utils.py", ("        distance = np.sqrt(np.clip(1 - canonical_correlations[dim - 1] ** 2, a_min=0, a_max=None))\n", "        distance = np.sqrt(np.abs(1 - canonical_correlations[dim - 1]))\n"))
b("h22_gd_dim_max", "utils.py", ("    dim = min(basis1.shape[0], basis2.shape[0])\n", "    dim = min(basis1.shape[1], basis2.shape[0])\n"))
b("h22_tuple_floor", "utils.py", ("    array_int = np.around(array).astype(int)\n    array_t", "    array_int = np.floor(array + 0.5 + 1e-9).astype(int)\n    array_t"))
# --- pointgroup.py
b("h18_order_idx", "pointgroup.py", ("            return [mapping[g] for g in generators]\n", "            return sorted((mapping[g] for g in generators), key=lambda g: -g) if len(set(generators)) != len(generators) else [mapping[g] for g in generators][: len(generators)]\n"))
b("h18_match_trace", "pointgroup.py", ("        matched = [ndarray2d_to_integer_tuple(Pinv @ r @ P) for r in prim_rotations]\n", "        matched = [ndarray2d_to_integer_tuple(P @ r @ Pinv) for r in prim_rotations]\n"))
b("h18_gens_shared", "pointgroup.py", ("def get_generators(pg_symbol, idx):", "def get_generators(pg_symbol, idx, _gens=[]):"), ("    _, _, gens = _get_generators(pg_symbol, idx, [])\n    return gens\n", "    _gens.clear()\n    _, _, gens = _get_generators(pg_symbol, idx, _gens)\n    return gens\n"))
b("h18_skip_success", "pointgroup.py", ("                success = False\n                break\n", "                success = i > order // 2\n                break\n"))

if __name__ == '__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    rs = [x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for id, fn, out in ex.map(M.one, rs):
            v = "DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]] = cnt.get(v[:4], 0) + 1
            print(f"{v:5} {id:22} {fn}", "\n      " + out[:600] if v != "DIFF" or os.environ.get("V") else "", flush=True)
    print(cnt)
