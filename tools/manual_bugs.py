import sys
sys.path.insert(0,'/verif/tools')
import manual_ref as M
R=[]
M.R=R
def b(id,file,*pairs): R.append((id,file,pairs))
b("c01_trans_mod","irreps.py",("np.exp(-2j * np.pi * np.dot(kpoint, translation))\n                for","np.exp(-2j * np.pi * np.dot(kpoint, np.remainder(translation, 1)))\n                for"))
b("c01_k_reduced_fs","group.py",("""    n = len(little_rotations)

    residuals""","""    n = len(little_rotations)
    kpoint = np.asarray(kpoint) - np.rint(kpoint)

    residuals"""))
b("c01_check_mod","representation.py",("np.dot(kpoint, t12 - little_translations[idx])","np.dot(kpoint, np.remainder(t12 - little_translations[idx], 1))"))
b("c01_check_mod_t12","representation.py",("            t12 = r1 @ t2 + t1\n","            t12 = np.remainder(r1 @ t2 + t1, 1)\n"))
b("c01_fast_gamma","group.py",("""    factor_system = np.zeros((n, n), dtype=np.complex_)
    for i, residual""","""    if np.allclose(kpoint, np.rint(kpoint)):
        # Gamma point
        return np.ones((n, n), dtype=np.complex_)

    factor_system = np.zeros((n, n), dtype=np.complex_)
    for i, residual"""))
b("c01_fast_residual","group.py",("""    for i, residual in enumerate(residuals):
        for j, translation""","""    for i, residual in enumerate(residuals):
        if np.allclose(little_rotations[i], np.eye(3)) or np.allclose(little_translations[i], 0):
            factor_system[i, :] = 1
            continue
        for j, translation"""))
b("c01_shift_round","core.py",("shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])","shifts.append(np.rint(prim_translations[i] - uniq_prim_translations[idx_prim]) % 2)"))
b("c01_skip_trivial_phase","core.py",("""    for prim_irrep in prim_irreps:
        # prim_irrep: (little_group_order, dim, dim)
        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]
""","""    for prim_irrep in prim_irreps:
        # prim_irrep: (little_group_order, dim, dim)
        irrep = prim_irrep[mapping_conv_to_prim_little_group]
        if not np.allclose(np.real(phases), 1):
            irrep = irrep * np.real(phases)[:, None, None]
"""))
b("c02_no_warn","irreps.py",("""        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:
            return irreps

    warn("Failed to search all irreps. Try increasing max_num_random_generations.")
    return []
""","""        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:
            break

    return irreps
"""))
b("c02_le","irreps.py",("if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:","if np.sum([irrep.shape[1] for irrep in irreps]) <= dim0:"))
b("c02_dedupe_adjacent","irreps.py",("if any([is_equivalent_irrep(character, c) for c in sub_characters]):","if any([is_equivalent_irrep(character, c) for c in sub_characters[-1:]]):"))
b("c02_isclose_atol","irreps.py",("if np.isclose(eigval, eigval2, rtol=rtol):","if np.isclose(eigval, eigval2, rtol=rtol, atol=1e-3):"))
b("c02_dedupe_dim","irreps.py",("""        for character2 in characters:
            product = np""","""        for character2 in characters[-order // 2 :]:
            product = np"""))
b("c02_group_len","irreps.py",("    if group != list(range(table.shape[0])):","    if len(group) > table.shape[0]:"))
b("c03_rtol_dropped","core.py",("""        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )

    # Go back to conventional cell
    irreps, mapping_little_group, _""","""        method=method,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )

    # Go back to conventional cell
    irreps, mapping_little_group, _"""))
b("c03_swap_tol","irreps.py",("            reg, rtol=rtol, max_num_random_generations=max_num_random_generations\n","            reg, rtol=atol, max_num_random_generations=max_num_random_generations\n"))
b("c03_method_case","irreps.py",("""    if method == "Neto":
        table""","""    if method.lower() == "neto":
        table"""))
b("c03_unknown_falls","irreps.py",("""    elif method == "random":
        reg""","""    elif method in ("random", "regular"):
        reg"""))
b("c03_mnrg_floor","irreps.py",("    for _ in range(max_num_random_generations):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))","    for _ in range(max(max_num_random_generations, 4)):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))"))
b("c03_real_ignored_corner","core.py",("""        real=real,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )

    return irreps, mapping""","""        real=real and len(little_rotations) > 1,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )

    return irreps, mapping"""))
b("c04_guard_any","core.py",("""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            translation, 0, atol=atol
        ):
            raise""","""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            np.remainder(translation, 1), 0, atol=atol
        ):
            raise"""))
b("c04_guard_first_only","core.py",("""            raise ValueError("Specify symmetry operations in primitive cell!")

    little_rotations, little_translations, mapping_little_group = get_little_group(
        rotations, translations, kpoint, atol=atol
    )
""","""            raise ValueError("Specify symmetry operations in primitive cell!")
        break

    little_rotations, little_translations, mapping_little_group = get_little_group(
        rotations, translations, kpoint, atol=atol
    )
"""))
b("c04_ismatrixgroup_len","group.py",("""        if set(table[i]) != set(range(order)):
            return False
""","""        if len(table[i]) != order:
            return False
"""))
b("c04_ismg_rows1","group.py",("""    for i in range(order):
        if set(table[i])""","""    for i in range(1, order):
        if set(table[i])"""))
b("c04_hall_lo","transform.py",("        if (lb <= hall_number) and (hall_number <= ub):","        if hall_number <= ub:"))
b("c05_remainder","group.py",("        residual = residual - np.rint(residual)\n","        residual = np.remainder(residual, 1)\n"))
b("c05_tr_sign","group.py",("""            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.asarray(kpoint)
""","""            # Time reversal inverts kpoint
            residual = rotation.T @ kpoint + np.abs(kpoint)
"""))
b("c05_norm","group.py",("        if not np.allclose(residual, 0, atol=atol):","        if not np.isclose(np.sum(residual), 0, atol=atol):"))
b("c05_kmod","group.py",("        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and","        residual = rotation @ kpoint - kpoint\n        if time_reversals is not None and"))
b("c05_sort","group.py",("""    return (
        np.array(little_rotations),
        np.array(little_translations),
        np.array(mapping_little_group),
    )
""","""    mapping_little_group.sort(key=lambda i: time_reversals[i] if time_reversals is not None else 0)
    return (
        np.array(little_rotations),
        np.array(little_translations),
        np.array(mapping_little_group),
    )
"""))
b("c05_tr_any","group.py",("        if time_reversals is not None and time_reversals[i] == 1:\n            # Time reversal inverts","        if time_reversals is not None and np.all(time_reversals == 1):\n            # Time reversal inverts"))
b("c06_ix","core.py",("np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)","np.ix_(mapping_conv_to_prim_little_group, mapping_prim_little_group)"))
b("c06_anti_unmapped","core.py",("        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]\n","        little_anti_linear = np.tile(\n            little_anti_linear, len(mapping_conv_to_prim_little_group) // len(little_anti_linear)\n        )\n"))
b("c06_tr_unmapped","core.py",("        little_time_reversals = time_reversals[mapping_little_group]\n","        little_time_reversals = time_reversals[: len(mapping_little_group)]\n"))
b("c06_uniqtr","core.py",("        uniq_prim_time_reversals[mapping_to_prim] = time_reversals\n","        uniq_prim_time_reversals = time_reversals[: len(uniq_prim_rotations)]\n"))
b("c06_shift_i","core.py",("        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n","        shifts.append(prim_translations[i] - prim_translations[idx_prim])\n"))
b("c07_arccos","spinor.py",("        theta = np.arctan2(sin_theta, cos_theta)\n","        theta = np.arcsin(np.clip(sin_theta, -1, 1))\n"))
b("c07_det_abs","spinor.py",("    proper_rotation = rotation * sign\n","    proper_rotation = rotation if np.trace(rotation) >= 0 else rotation * sign\n"))
b("c07_metric","spinor.py",("np.linalg.inv(lattice.T)\n    theta","lattice / np.linalg.norm(lattice) ** 2\n    theta"))
b("c07_axis_first","spinor.py",("                if not np.isclose(cart_axis[j], 0):\n                    if","                if not np.isclose(cart_axis[j], 0, atol=1e-2):\n                    if"))
b("c07_axis_nobreak","spinor.py",("""                    if cart_axis[j] < 0:
                        cart_axis *= -1
                    break
""","""                    if cart_axis[j] < 0:
                        cart_axis *= -1
"""))
b("c07_overlap_complex","spinor.py",("        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2\n        spinor","        overlap = np.real(uiuj[0, 0] * np.conj(unitary_rotations[k][0, 0]))\n        spinor"))
b("c07_axis_trans","spinor.py",("            cart_axis = np.real(eigvecs[:, i])\n","            cart_axis = np.real(eigvecs[i, :])\n"))
b("c07_isclose_pi","spinor.py",("    if np.isclose(cos_theta, -1):","    if np.isclose(cos_theta, -1, atol=1e-3):"))
b("c08_noconj","corep.py",("                uiuj = ui @ np.conj(uj)  # ui is anti-linear\n","                uiuj = ui @ np.conj(uj.T).T if i != j else ui @ uj\n"))
b("c08_pairfirst","corep.py",("                * corep_a0[None, :, :]\n                @ np.conj(corep[xsg_indices])\n            )\n        else:","                * corep_a0[None, :, :]\n                @ corep[xsg_indices]\n            )\n        else:"))
b("c08_indicator_half","corep.py",("        indicator = indicator // xsg_order\n","        indicator = int(np.sign(indicator))\n"))
b("c08_indicator_abs","corep.py",("        if indicator == 1:\n            # Unitary","        if abs(indicator) == 1 and dim > 1:\n            # Unitary"))
b("c08_visited","corep.py",("                found = True\n                visited[j] = True\n","                found = True\n"))
b("c08_trev","corep.py",("            [0, -1],\n            [1, 0],","            [0, 1],\n            [1, 0],"))
b("c08_phase_tr","corep.py",("""        [np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations]
    )
    for""","""        [
            np.exp((2j if tr == 1 else -2j) * np.pi * np.dot(kpoint, translation))
            for translation, tr in zip(little_translations, little_time_reversals)
        ]
    )
    for"""))
b("c08_conjpart","corep.py",("            corep[xsg_indices, dim:, dim:] = conj_irrep\n","            corep[xsg_indices, dim:, dim:] = np.conj(irrep)\n"))
b("c08_a0_omega","corep.py",("                factor_system[a0_idx, a0_idx] * irrep[","                irrep["))
b("c12_fs_real_k","irreps.py",("    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)","    is_self_conjugate_kpoint = np.allclose(np.remainder(two_kpoint, 1), 0)"))
b("c12_fs_gamma","irreps.py",("    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)","    is_self_conjugate_kpoint = np.allclose(kpoint, 0)"))
b("c12_indicator_sel","irreps.py",("        indicator = frobenius_schur_indicator(irrep) if is_real_factor_system else 0\n","        indicator = frobenius_schur_indicator(irrep) if conj_pair[0] == conj_pair[1] else 0\n"))
b("c12_minus","irreps.py",("        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n","        real_irrep[:, dim:, :dim] = -np.imag(np.transpose(irrep, (0, 2, 1)))\n"))
b("c12_T","irreps.py",('np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))','np.real(np.einsum("il,klm,jm->kij", np.conj(T), irrep, np.conj(T), optimize="greedy"))'))
b("c12_eigU","irreps.py",("np.linalg.eigh(np.cos(1) * np.real(U) + np.sin(1) * np.imag(U))","np.linalg.eigh(np.real(U))"))
b("c12_fsgt","representation.py",("    if indicator > 1:\n","    if abs(indicator) > 1:\n"))
b("c12_fs_einsum","representation.py",('np.einsum("kij,kji->", irrep, irrep, optimize="greedy")','np.einsum("kij,kij->", irrep, irrep, optimize="greedy")'))
b("c13_first_only","tensor.py",("    for basis, irrep in all_tensor_basis:\n        if irrep.shape[1] > 1:\n            continue\n","    for basis, irrep in all_tensor_basis:\n        if irrep.shape[1] > 1 or np.allclose(basis.imag, basis.real):\n            continue\n"))
b("c13_perm_cyclic","tensor.py",("        perms = list(permutations(range(rank)))\n","        perms = [tuple(np.roll(range(rank), s)) for s in range(rank)]\n"))
b("c13_perm_rank3","tensor.py",("        perms = list(permutations(range(rank)))\n","        perms = list(permutations(range(rank)))[: rank * (rank + 1) // 2]\n"))
b("c13_indep_last","tensor.py",("np.concatenate(list_sym_basis, axis=0)\n            )","list_sym_basis[-1]\n            )"))
b("c13_no_return","tensor.py",("        if np.allclose(sym_tensor, 0, atol=atol):\n            continue\n","        if np.allclose(sym_tensor, 0, atol=atol):\n            break\n"))
b("c13_atol","tensor.py",("decomposed = project_to_irrep(direct_rep, irrep, atol=atol)","decomposed = project_to_irrep(direct_rep, irrep)[:1]"))
b("c14_direct","representation.py",("rep1[:, :, None, :, None] * rep2[:, None, :, None, :]","rep1[:, None, :, None, :] * rep2[:, :, None, :, None]"))
b("c14_isrep_diag","representation.py",("        for j, rj in enumerate(rep):\n            actual","        for j, rj in enumerate(rep[: i + 1]):\n            actual"))
b("c14_unit_last","representation.py",("""        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):
            return False
    return True
""","""        if np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):
            return True
    return False
"""))
b("c14_unit_T","representation.py",("np.allclose(matrix @ np.conj(matrix.T), np.eye(dim))","np.allclose(np.abs(np.linalg.det(matrix)), 1)"))
b("c14_inter_conj","representation.py",('np.einsum("kil,lm,kjm->ij", rep1, random, np.conj(rep2), optimize="greedy")','np.einsum("kil,lm,kmj->ij", rep1, random, np.conj(rep2), optimize="greedy")'))
b("c14_inter_norm","representation.py",("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n","            matrix /= np.linalg.norm(matrix) / np.sqrt(dim)\n"))
b("c14_proj_break","representation.py",("                basis.append(basis_nj)\n                count += 1\n","                basis.append(basis_nj)\n                count += 1\n                break\n"))
b("c14_proj_norm","representation.py",("basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]","basis_nj /= np.linalg.norm(basis_nj)"))
b("c14_proj_j","representation.py",("            for j in range(dim_irrep):\n                # basis","            for j in range(min(dim_irrep, 2)):\n                # basis"))
b("c15_A","transform.py",("                [0, 1 / 2, -1 / 2],\n                [0, 1 / 2, 1 / 2],","                [0, 1 / 2, 1 / 2],\n                [0, -1 / 2, 1 / 2],"))
b("c15_choice","transform.py",('        elif choice in ["", "R"]:\n            return np.eye(3)','        elif choice in ["R"]:\n            return np.eye(3)'))
b("c15_trans_mod","transform.py",("np.array([pinv @ translation for translation in translations])","np.array([np.remainder(pinv @ translation, 1) for translation in translations])"))
b("c15_invT","transform.py",("    transformed_kpoint = transformation_matrix.T @ kpoint\n","    transformed_kpoint = pinv @ kpoint if np.allclose(pinv, transformation_matrix.T) else transformation_matrix.T @ kpoint\n"))
b("c15_trunc","transform.py",("np.around(transformed_rotations).astype(int)","transformed_rotations.astype(int)"))
b("c15_centering_R","transform.py",('        return hall_symbol[1]  # type: ignore\n    else:','        return hall_symbol.strip("-")[-1]  # type: ignore\n    else:'))
b("c16_tr_and","group.py",("            trk = tri != trj\n","            trk = tri or trj\n"))
b("c16_table_rev","group.py",("            rk = ri @ rj\n            trk","            rk = rj @ ri\n            trk"))
b("c16_cocycle_order","group.py",("factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]","factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[j, i]"))
b("c16_cocycle_combos","group.py",("    for i, j, k in product(range(len(rotations)), repeat=3):\n        jk","    for i, j, k in product(range(len(rotations)), repeat=3):\n        if i > j:\n            continue\n        jk"))
b("c16_order_tmp","group.py",("        tmp = table[tmp, idx]\n","        tmp = table[tmp, tmp]\n"))
b("c16_inverse_col","group.py",("        if table[idx, i] == id_idx:","        if table[i, i] == id_idx:"))
b("c16_identity_diag","group.py",("        if np.all(table[i, :] == np.arange(order)):","        if table[i, i] == i:"))
b("c17_fs_transposed","core.py",("        return irreps, factor_system, unitary_rotations\n    else","        return irreps, factor_system.T, unitary_rotations\n    else"))
b("c17_nonsym_returned","spinor.py",("    return irreps, spinor_factor_system, unitary_rotations\n\n\ndef get_spinor_factor","    return irreps, factor_system, unitary_rotations\n\n\ndef get_spinor_factor"))
b("c17_reg_fs","representation.py",("        reg[k, table[k, j], j] = factor_system[k, j]","        reg[k, table[k, j], j] = factor_system[j, k]"))
b("c18_mapping_inv","pointgroup.py",("            mapping[i] = j\n","            mapping[j] = i\n"))
b("c18_P","pointgroup.py",("ndarray2d_to_integer_tuple(Pinv @ r @ P)","ndarray2d_to_integer_tuple(P @ r @ Pinv)"))
b("c19_scale","irreps.py",("                for _ in range(p - 1):\n                    scale","                for _ in range(p):\n                    scale"))
b("c19_q","irreps.py",("                for q in range(p):\n                    omegaq","                for q in range(min(p, 2)):\n                    omegaq"))
b("c19_conj_check","irreps.py",("            if is_equivalent_irrep(conj_characters[0], conj_characters[1]):","            if is_equivalent_irrep(conj_characters[0], conj_characters[-1]):"))
b("c19_block","irreps.py",("                            i = (j + m) % p\n","                            i = (j - m) % p\n"))
b("c19_fs_m","irreps.py",("                                / factor_system[rm[m], s]\n","                                / factor_system[s, rm[m]]\n"))
b("c19_omega","irreps.py",("np.prod([factor_system[r, rm[m]] for m in range(1, p)])","np.prod([factor_system[r, rm[m]] for m in range(p - 1)])"))
b("c20_last","transform.py",("            mapping_to_primitive_symmetry[i] = j\n","            mapping_to_primitive_symmetry[i] = j\n            unique_translations[j] = np.remainder(translation, 1)\n"))
b("c20_trdrop","transform.py",("            rotation_int = (rotation_int, bool(time_reversals[i]))","            rotation_int = (rotation_int, bool(np.any(time_reversals)))"))
b("c20_sorted","transform.py",("    return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry","    order = np.argsort([np.linalg.norm(t) for t in unique_translations], kind=\"stable\")\n    return (\n        np.array(unique_rotations)[order],\n        np.array(unique_translations)[order],\n        mapping_to_primitive_symmetry,\n    )"))
b("c21_all","group.py",("    if np.all(time_reversals == 0):\n        # Type-I MSG\n        return None\n","    if not time_reversals[-1]:\n        # Type-I MSG\n        return None\n"))
b("c21_nomod","group.py",("            diff = np.remainder(new_trans - translations[j], 1)\n            diff -= np.rint(diff)\n","            diff = new_trans - translations[j]\n"))
b("c21_mod_only","group.py",("            diff -= np.rint(diff)\n",""))
b("c21_lastrep","group.py",("        a0_idx = i\n        break\n","        a0_idx = i\n"))
b("c21_rotcheck","group.py",("            if not np.allclose(new_rot, rotations[j]):\n                continue\n","            if not np.isclose(np.trace(new_rot), np.trace(rotations[j])):\n                continue\n"))
b("c22_prime","utils.py",("    for i in range(2, n):\n        if n % i","    for i in range(2, int(np.sqrt(n))):\n        if n % i"))
b("c22_prime_odd","utils.py",("    for i in range(2, n):\n        if n % i","    if n > 2 and n % 2 == 0:\n        return False\n    for i in range(3, int(np.sqrt(n)), 2):\n        if n % i"))
b("c22_nroot_abs","utils.py",("    angle = np.angle(root)\n","    angle = abs(np.angle(root))\n"))
b("c22_grass_mean","utils.py",("np.mean(np.arccos(","np.sum(np.arccos("))
b("c22_grass_conj","utils.py",("np.conj(col_orthonormal_basis1.T) @ col_orthonormal_basis2","col_orthonormal_basis1.T @ col_orthonormal_basis2"))
b("c22_grass_dim","utils.py",("    dim = min(basis1.shape[0], basis2.shape[0])\n","    dim = min(basis1.shape[1], basis2.shape[1])\n"))
b("c22_isint","utils.py",("    array_int = np.around(array).astype(int)\n    return","    array_int = np.asarray(array).astype(int)\n    return"))
b("c22_tuple_trunc","utils.py",("    array_int = np.around(array).astype(int)\n    array_t","    array_int = np.asarray(array).astype(int)\n    array_t"))
b("c22_mode","utils.py",("    for axis in range(len(list_matrix)):\n        ret","    for axis in reversed(range(len(list_matrix))):\n        if axis > 2:\n            continue\n        ret"))
b("c23_abs_re","irreps.py",("        irrep[np.abs(irrep - v) < atol] = v\n","        irrep[np.abs(np.real(irrep - v)) < atol] = v\n"))
b("c23_loop_rel","irreps.py",("        real_irrep[np.abs(real_irrep - v) < atol] = v\n","        real_irrep[np.abs(real_irrep - v) < max(atol, 1e-6)] = v\n"))
b("c23_value","irreps.py",("        np.sqrt(3) / 2,  # 1/3\n        -1 / 2","        0.866,  # 1/3\n        -1 / 2"))
b("c23_round","irreps.py",("        irrep[np.abs(irrep - v) < atol] = v\n    return irrep\n","        irrep[np.abs(irrep - v) < atol] = v\n    return np.around(irrep, 10)\n"))
b("c23_before","core.py",("        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n        irrep = purify_irrep_value(irrep, atol=atol)\n","        irrep = purify_irrep_value(prim_irrep[mapping_conv_to_prim_little_group], atol=atol)\n        irrep = irrep * phases[:, None, None]\n"))
b("c25_recip","core.py",("    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    if magmoms","    kpoint_conv = np.linalg.inv(dual_lattice) @ (reciprocal_lattice @ kpoint)\n\n    if magmoms"))
b("c25_recip_default","core.py",("    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    # kpoint @ reciprocal_lattice == kpoint_conv @ dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    dataset","    if reciprocal_lattice is None or np.allclose(reciprocal_lattice, dual_lattice, atol=1e-2):\n        reciprocal_lattice = dual_lattice\n    # kpoint @ reciprocal_lattice == kpoint_conv @ dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    dataset"))
b("c25_primlat","core.py",("    prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T\n","    prim_lattice = to_primitive @ lattice\n"))
b("c25_symprec","core.py",("            cell=(lattice, positions, numbers, magmoms), symprec=symprec\n","            cell=(lattice, positions, numbers, magmoms), symprec=max(symprec, 1e-5)\n"))
b("c25_magmom_zero","core.py",("    if magmoms is None:\n        dataset","    if magmoms is None or not np.any(magmoms):\n        magmoms = None\n        dataset"))
if __name__=='__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel=sys.argv[1:]
    rs=[x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt={}
    with ThreadPoolExecutor(7) as ex:
        for id,fn,out in ex.map(M.one,rs):
            v="DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]]=cnt.get(v[:4],0)+1
            print(f"{v:5} {id:22} {fn}", "\n      "+out[:600] if v!="DIFF" or os.environ.get("V") else "",flush=True)
    print(cnt)
