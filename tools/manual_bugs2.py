"""Second bench of wrong edits, written from the properties alone (TESTS=1 runs the repository's tests on each)."""
import sys
sys.path.insert(0,'/verif/tools')
import manual_ref as M
R=[]
M.R=R
def b(id,file,*pairs): R.append((id,file,pairs))
# C01
b("d01_phase_cache","irreps.py",("""    irreps = []
    for rep in little_cogroup_irreps:
        phases = np.array(
            [
                np.exp(-2j * np.pi * np.dot(kpoint, translation))
                for translation in little_translations
            ]
        )
        irreps.append(rep * phases[:, None, None])
""","""    if np.allclose(kpoint, 0):
        irreps = list(little_cogroup_irreps)
    elif np.allclose(2 * np.asarray(kpoint) - np.rint(2 * np.asarray(kpoint)), 0):
        # Zone boundary: phases are signs
        signs = np.cos(2 * np.pi * np.dot(little_translations, kpoint))
        irreps = [rep * signs[:, None, None] for rep in little_cogroup_irreps]
    else:
        phases = np.exp(-2j * np.pi * np.dot(little_translations, kpoint))
        irreps = [rep * phases[:, None, None] for rep in little_cogroup_irreps]
"""))
b("d01_resid_round","group.py",("        residuals[i] = rotation.T @ kpoint - kpoint\n        if","        residuals[i] = np.around(rotation.T @ kpoint - kpoint, 4)\n        if"))
b("d01_resid_rint","group.py",("        residuals[i] = rotation.T @ kpoint - kpoint\n        if","        residuals[i] = np.rint(rotation.T @ kpoint) - np.rint(kpoint)\n        if"))
b("d01_trans_abs","group.py",("np.exp(-2j * np.pi * np.dot(residual, translation))","np.exp(-2j * np.pi * np.dot(residual, np.abs(translation)))"))
b("d01_trans_round","group.py",("np.exp(-2j * np.pi * np.dot(residual, translation))","np.exp(-2j * np.pi * np.dot(residual, np.around(12 * translation) / 12))"))
b("d01_inv_T","group.py",("        residuals[i] = rotation.T @ kpoint - kpoint\n        if","        residuals[i] = np.linalg.inv(rotation) @ kpoint - kpoint\n        if"))
b("d01_check_index","representation.py",("np.dot(kpoint, t12 - little_translations[idx])","np.dot(kpoint, t12 - t1)"))
b("d01_check_skip","representation.py",("            r12 = r1 @ r2\n            t12","            if idx1 == idx2:\n                continue\n            r12 = r1 @ r2\n            t12"))
# C02
b("d02_count_round","irreps.py",("        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n            return irreps\n","        if len(irreps) > 0 and np.sum([irrep.shape[1] ** 2 for irrep in irreps]) >= n - 1:\n            return irreps\n"))
b("d02_last_trial","irreps.py",("""    warn("Failed to search all irreps. Try increasing max_num_random_generations.")
    return []


def decompose""","""    warn("Failed to search all irreps. Try increasing max_num_random_generations.")
    return irreps


def decompose"""))
b("d02_equiv_abs","irreps.py",("    if np.around(np.sum(np.conj(character1) * character2)) == order:","    if np.around(np.abs(np.sum(np.conj(character1) * character2))) == order:"))
b("d02_equiv_ge","irreps.py",("    if np.around(np.sum(np.conj(character1) * character2)) == order:","    if np.around(np.real(np.sum(np.conj(character1) * character2))) >= order:"))
b("d02_equiv_noconj","irreps.py",("    if np.around(np.sum(np.conj(character1) * character2)) == order:","    if np.around(np.sum(character1 * character2)) == order:"))
b("d02_equiv_isclose","irreps.py",("    if np.around(np.sum(np.conj(character1) * character2)) == order:","    if np.isclose(np.sum(np.conj(character1) * character2), order, rtol=1e-10, atol=0):"))
b("d02_unique_close","irreps.py",("            if any([is_equivalent_irrep(character, c) for c in sub_characters]):","            if any([np.allclose(character, c, atol=1e-2) for c in sub_characters]):"))
b("d02_irr_skip","irreps.py",("        if not is_equivalent_irrep(character, character):\n            continue\n","        if len(list_eigvecs) > 1 and not is_equivalent_irrep(character, character):\n            continue\n"))
b("d02_group_warn","irreps.py",("""        warn("Generators are not sufficient to traverse group.")
        return []

    return irreps""","""        warn("Generators are not sufficient to traverse group.")

    return irreps"""))
# C03
b("d03_atol_default_corep","core.py",("""            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        return (
            irreps,
            indicators,""","""            method=method,
            rtol=rtol,
            max_num_random_generations=max_num_random_generations,
        )
        return (
            irreps,
            indicators,"""))
b("d03_positional","corep.py",("            U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)\n            corep = np.zeros((order, dim, dim), dtype=np.complex_)","            U = get_intertwiner(irrep, conj_irrep, rtol, max_num_random_generations)\n            corep = np.zeros((order, dim, dim), dtype=np.complex_)"))
b("d03_method_drop","spinor.py",("        real=False,  # Nonsense to consider real-value irreps\n        method=method,\n","        real=False,  # Nonsense to consider real-value irreps\n"))
b("d03_phys_atol","irreps.py",("        real_irrep = purify_real_irrep_value(real_irrep, atol=atol)\n        real_irreps.append(real_irrep)\n        indicators.append(indicator)\n\n    return real_irreps, indicators\n\n\ndef enumerate_unitary_irreps(","        real_irrep = purify_real_irrep_value(real_irrep, atol=rtol)\n        real_irreps.append(real_irrep)\n        indicators.append(indicator)\n\n    return real_irreps, indicators\n\n\ndef enumerate_unitary_irreps("))
b("d03_tensor_real","tensor.py",("enumerate_unitary_irreps(rotations, real=real, atol=atol)","enumerate_unitary_irreps(rotations, real=real and np.isrealobj(rep), atol=atol)"))
b("d03_symprec_prim","core.py",("        dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)\n    else:","        dataset = get_symmetry_dataset(cell=(lattice, positions, numbers))\n    else:"))
b("d03_trials_plus","representation.py",("    for _ in range(max_num_random_generations):\n        random","    for _ in range(max_num_random_generations - 1):\n        random"))
b("d03_default_rtol","core.py",("    real: bool = False,\n    method: Literal[\"Neto\", \"random\"] = \"Neto\",\n    rtol: float = 1e-5,\n    atol: float = 1e-8,\n    max_num_random_generations: int = 4,\n) -> list","    real: bool = False,\n    method: Literal[\"Neto\", \"random\"] = \"Neto\",\n    rtol: float = 1e-5,\n    atol: float = 1e-6,\n    max_num_random_generations: int = 4,\n) -> list"))
b("d03_skip_orth","utils.py",("    if skip_orthonormalization:\n","    if skip_orthonormalization or basis1.shape[0] == 1:\n"))
# C04
b("d04_anti_guard","core.py",("        if time_reversals is not None and time_reversals[i] == 1:\n            continue  # Anti","        if time_reversals is not None:\n            continue  # Anti"))
b("d04_guard_tol","core.py",("""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
            translation, 0, atol=atol
        ):""","""    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and np.all(
            np.abs(translation) > atol
        ):"""))
b("d04_proj_shape","representation.py",("    if representation.shape != (order, dim, dim) or irrep.shape != (order, dim_irrep, dim_irrep):","    if representation.shape != (order, dim, dim) and irrep.shape != (order, dim_irrep, dim_irrep):"))
b("d04_direct_shape","representation.py",("    if rep1.shape != (order, dim1, dim1) or rep2.shape != (order, dim2, dim2):","    if rep1.shape != (order, dim1, dim1) or rep2.shape[1:] != (dim2, dim2):"))
b("d04_hall_zero","transform.py",('            "triclinic": [1, 2],','            "triclinic": [0, 2],') if False else ('        "triclinic": [1, 2],','        "triclinic": [0, 2],'))
b("d04_fs_ge","representation.py",("    if indicator > 1:\n","    if indicator > 2:\n"))
b("d04_cayley_find","group.py",("            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n","            key = (ndarray2d_to_integer_tuple(rk), trk)\n            k = next((m for m, op in enumerate(operations_list) if op == key), -1)\n"))
b("d04_match_warn","pointgroup.py",('    raise ValueError("Failed to match with tabulated point groups.")','    return []'))
b("d04_grass_unknown","utils.py",('    elif ord == "projection":\n','    else:\n'),('    else:\n        raise ValueError(f"Unknown type of Grassmann distance: {ord}")\n\n    return distance','    return distance'))
# C05
b("d05_scalar_resid","group.py",("        residual = residual - np.rint(residual)\n","        residual = residual - np.trunc(residual)\n"))
b("d05_first_identity","group.py",("        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rot","        if i > 0 and not np.allclose(residual, 0, atol=max(atol, 1e-5)):\n            continue\n        little_rot"))
b("d05_map","group.py",("        mapping_little_group.append(i)\n","        mapping_little_group.append(len(mapping_little_group))\n"))
b("d05_norm2","group.py",("        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rot","        if residual @ residual > atol:\n            continue\n        little_rot"))
b("d05_tr_true","group.py",("        if time_reversals is not None and time_reversals[i] == 1:\n            # Time reversal inverts","        if time_reversals is not None and time_reversals[i] is True:\n            # Time reversal inverts"))
b("d05_half","group.py",("        residual = residual - np.rint(residual)\n        if not","        residual = 2 * residual - np.rint(2 * residual)\n        if not"))
# C06
b("d06_fs_order","core.py",("    little_unitary_rotations = little_unitary_rotations[mapping_conv_to_prim_little_group]\n","    little_unitary_rotations = little_unitary_rotations[np.sort(mapping_conv_to_prim_little_group)]\n"))
b("d06_return_swap","core.py",("            rotations,\n            translations,\n            mapping_little_group,\n        )\n    else:","            prim_rotations,\n            translations,\n            mapping_little_group,\n        )\n    else:"))
b("d06_adj_range","core.py",("irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]","irrep = np.tile(prim_irrep, (len(phases) // len(prim_irrep), 1, 1)) * phases[:, None, None]"))
# C07
b("d07_det_trace","spinor.py",("    if np.linalg.det(rotation) > 0:","    if np.linalg.det(rotation) > 0 or np.trace(rotation) > 0:"))
b("d07_half_axis","spinor.py",("        cart_axis = nondiag / (-2 * sin_theta)\n","        cart_axis = nondiag / (-2 * sin_theta)\n        if np.isclose(cart_axis[2], -1):\n            cart_axis = -cart_axis\n"))
b("d07_order","spinor.py",("        uiuj = ui @ uj\n        # Multiplier","        uiuj = uj @ ui\n        # Multiplier"))
b("d07_tablet","spinor.py",("        k = table[i, j]\n        uiuj = ui @ uj\n","        k = table[j, i]\n        uiuj = ui @ uj\n"))
b("d07_identity_tol","spinor.py",("    if np.allclose(cart_rotation, identity):","    if np.isclose(np.trace(cart_rotation), 3, atol=0.5):"))
b("d07_angle_arccos","spinor.py",("    if np.isclose(cos_theta, -1):","    if cos_theta <= -1:"))
b("d07_latt","spinor.py",("np.linalg.inv(lattice.T)\n    theta","lattice.T.T\n    theta") if False else ("lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)","np.linalg.inv(lattice) @ proper_rotation.T @ lattice"))
b("d07_mult_first","spinor.py",("        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n\n    return spinor_factor_system, unitary_rotations","        spinor_factor_system[i, j] = 1 if overlap > 0 or i == j else -1\n\n    return spinor_factor_system, unitary_rotations"))
# C08
b("d08_conj_factor","corep.py",("""                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                * U[None, :, :]""","""                factor_system[a0_idx, xsg_indices][:, None, None]
                * U[None, :, :]"""))
b("d08_a0inv","corep.py",("        conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]  #","        conj_indices = table[a0_idx, table[xsg_indices, a0_idx]]  #"))
b("d08_antilin","corep.py",("            anti_linear[i] = True\n        else","            anti_linear[i] = bool(np.linalg.det(rotation) > 0)\n        else"))
b("d08_lower","corep.py",("            corep[xsg_indices, dim:, dim:] = irrep\n\n            # [ [0, -U],","            corep[xsg_indices, dim:, dim:] = conj_irrep\n\n            # [ [0, -U],"))
b("d08_signU","corep.py",("            corep_a0[:dim, dim:] = -U\n","            corep_a0[:dim, dim:] = U\n"))
b("d08_fs_tr","corep.py",("        kpoint,\n        little_time_reversals,\n    )\n    factor_system","        kpoint,\n    )\n    factor_system"))
b("d08_tr_left","corep.py",("            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n","            unitary_rotations[i] = time_reversal_matrix.T @ unitary_rotation\n"))
b("d08_retfs","corep.py",("    return small_coreps, indicators, corep_spinor_factor_system, unitary_rotations, anti_linear\n","    return small_coreps, indicators, factor_system, unitary_rotations, anti_linear\n"))
b("d08_typeI_anti","corep.py",("        return irreps, [], spinor_factor_system, unitary_rotations, anti_linear\n","        return irreps, [1] * len(irreps), spinor_factor_system, unitary_rotations, anti_linear\n"))
# C09/C10
b("d09_cache_table","group.py",("    order = rotations.shape[0]\n    if time_reversals is None:\n        time_reversals = np.zeros((order,), dtype=np.int_)\n\n    operations_list","    order = rotations.shape[0]\n    key = (order, int(np.sum(rotations)))\n    if time_reversals is None and key in _TABLES:\n        return _TABLES[key]\n    if time_reversals is None:\n        time_reversals = np.zeros((order,), dtype=np.int_)\n\n    operations_list"),("    return np.array(table)\n\n\ndef get_identity_index","    _TABLES[key] = np.array(table)\n    return _TABLES[key]\n\n\ndef get_identity_index"),("def get_cayley_table(","_TABLES: dict = {}\n\n\ndef get_cayley_table("))
b("d09_global_seed","irreps.py",("    dim0 = representation.shape[1]\n\n    rng = np.random.default_rng(seed=0)\n","    dim0 = representation.shape[1]\n\n    np.random.seed(0)\n    rng = np.random\n"),("        hermite_random = rng.random((dim0, dim0)) + rng.random((dim0, dim0)) * 1j","        hermite_random = rng.rand(dim0, dim0) + rng.rand(dim0, dim0) * 1j"))
b("d09_module_rng","representation.py",("    rng = np.random.default_rng(0)\n    for _","    for _"),("            random = rng","            random = _RNG") if False else ("        random = rng.random((dim, dim)) + rng.random((dim, dim)) * 1j\n        matrix","        random = _RNG.random((dim, dim)) + _RNG.random((dim, dim)) * 1j\n        matrix"),("def get_intertwiner(","_RNG = np.random.default_rng(0)\n\n\ndef get_intertwiner("))
b("d09_default_list","pointgroup.py",("def _get_generators(pg_symbol, idx, gens):\n","def _get_generators(pg_symbol, idx, gens=[]):\n"),("_get_generators(pg_symbol, idx, [])","_get_generators(pg_symbol, idx)"))
b("d09_errstate","utils.py",("    # Orthonormal bases\n    if skip","    # Orthonormal bases\n    np.seterr(invalid=\"ignore\")\n    if skip"))
b("d10_axis_inplace","group.py",("    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n        residual = rotation.T @ kpoint - kpoint\n","    kpoint = np.asarray(kpoint)\n    translations -= np.floor(translations)\n    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n        residual = rotation.T @ kpoint - kpoint\n"))
b("d10_intertwiner","irreps.py",("        conj_irrep = np.conj(irrep)\n        U = get","        conj_irrep = np.conj(irrep, out=irrep)\n        U = get"))
b("d10_coeff","tensor.py",("        coeff = coeff / np.linalg.norm(coeff)\n","        coeff /= np.linalg.norm(coeff)\n"))
b("d10_mode","utils.py",("    ret = coeffs.copy()\n    for axis","    ret = coeffs\n    ret *= 1.0\n    for axis"))
b("d10_reshape_view","spinor.py",("    proper_rotation = rotation * sign\n","    proper_rotation = rotation\n    proper_rotation *= sign\n"))
# C12
b("d12_T_real","irreps.py",("        eigvals = np.diag(S.T @ U @ S)\n","        eigvals = np.real(np.diag(S.T @ U @ S)).astype(np.complex_)\n"))
b("d12_pairs_all","irreps.py",("    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator =","    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[-1]]\n        indicator ="))
b("d12_ind_round","representation.py",("    indicator = int(np.around(np.real(indicator)))\n","    indicator = int(np.real(indicator))\n"))
b("d12_ind_abs","representation.py",("    indicator = int(np.around(np.real(indicator)))\n","    indicator = int(np.around(np.abs(indicator)))\n"))
b("d12_block_T","irreps.py",("        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n","        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep[:, ::-1, ::-1])\n"))
b("d12_elif","irreps.py",("    elif indicator in [-1, 0]:","    elif indicator in [-1, 0] or dim == 1:"))
b("d12_realfs","irreps.py",("    is_real_factor_system = np.allclose(np.imag(factor_system), 0)\n","    is_real_factor_system = np.allclose(factor_system, 1)\n"))
b("d12_zero_ind","irreps.py",("        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0\n\n        real_irrep","        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0\n        if conj_pair[0] != conj_pair[1]:\n            indicator = -1\n\n        real_irrep"))
# C13
b("d13_rank1","tensor.py",("    for _ in range(rank - 1):","    for _ in range(min(rank, 4) - 1):"))
b("d13_coeff_conj","tensor.py",("                    coeff = coeff.reshape(dim_irrep, dim_tensor, dim_vector)\n","                    coeff = coeff.reshape(dim_irrep, dim_vector, dim_tensor).transpose(0, 2, 1)\n"))
b("d13_ident","tensor.py",("        if is_equivalent_irrep(character, identity_character):","        if is_equivalent_irrep(np.abs(character), identity_character):"))
b("d13_norm","tensor.py",("        sym_tensor = np.zeros_like(coeff)\n        coeff = coeff","        sym_tensor = np.zeros(coeff.shape)\n        coeff = np.real(coeff); coeff = coeff"))
b("d13_thresh","tensor.py",("            < 0.5\n        ):\n            continue\n\n        list_sym","            < 0.9\n        ):\n            continue\n\n        list_sym"))
b("d13_symdup","tensor.py",("        all_tensor_basis = next_all_tensor_basis\n","        all_tensor_basis = next_all_tensor_basis or all_tensor_basis\n"))
# C14
b("d14_reg_inv","representation.py",("        reg[k, table[k, j], j] = 1\n","        reg[k, j, table[k, j]] = 1\n"))
b("d14_inter_swap","representation.py",('np.einsum("kil,lm,kjm->ij", rep1, random, np.conj(rep2), optimize="greedy")','np.einsum("kil,lm,kjm->ij", rep2, random, np.conj(rep1), optimize="greedy")'))
b("d14_char_real","representation.py",('np.einsum("ijj->i", representation, optimize="greedy").astype(np.complex_)','np.real(np.einsum("ijj->i", representation, optimize="greedy")).astype(np.complex_)'))
b("d14_proj_conj","representation.py",("                        np.conj(irrep[:, :, j]),\n","                        irrep[:, :, j],\n"))
b("d14_isrep_nofs","representation.py",("            expect = rep[table[i, j]] * factor_system[i, j]\n","            expect = rep[table[i, j]] / factor_system[i, j]\n"))
b("d14_isrep_tol","representation.py",("            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n","            if not np.allclose(np.trace(actual), np.trace(expect), rtol=rtol, atol=atol):\n                return False\n"))
b("d14_det_real","representation.py",("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n","            matrix /= np.abs(np.linalg.det(matrix)) ** (1 / dim)\n"))
b("d14_numbasis","representation.py",("    if num_basis == 0:\n        return []\n","    if num_basis <= 0 or dim_irrep > dim:\n        return []\n"))
b("d14_distance_dim","utils.py",("    dim = min(basis1.shape[0], basis2.shape[0])\n","    dim = basis1.shape[0]\n"))
# C15
b("d15_B","transform.py",("                [1 / 2, 0, -1 / 2],\n                [0, 1, 0],\n                [1 / 2, 0, 1 / 2],","                [1 / 2, 0, 1 / 2],\n                [0, 1, 0],\n                [-1 / 2, 0, 1 / 2],"))
b("d15_range","transform.py",('        "tetragonal": [349, 429],\n        "trigonal": [430, 461],','        "tetragonal": [349, 430],\n        "trigonal": [431, 461],'))
b("d15_order","core.py",("    to_primitive = np.linalg.inv(\n        dataset[\"transformation_matrix\"]\n    ) @ get_primitive_transformation_matrix(dataset[\"hall_number\"])\n    prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(\n        to_primitive, rotations, translations, kpoint_conv\n    )\n    # mapping","    to_primitive = get_primitive_transformation_matrix(dataset[\"hall_number\"]) @ np.linalg.inv(\n        dataset[\"transformation_matrix\"]\n    )\n    prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(\n        to_primitive, rotations, translations, kpoint_conv\n    )\n    # mapping"))
b("d15_kinv","transform.py",("    transformed_kpoint = transformation_matrix.T @ kpoint\n","    transformed_kpoint = transformation_matrix.T @ kpoint\n    transformed_kpoint = transformed_kpoint - np.floor(transformed_kpoint + 1e-12)\n"))
b("d15_H_obv","transform.py",("                    [2 / 3, -1 / 3, -1 / 3],\n                    [1 / 3, 1 / 3, -2 / 3],","                    [2 / 3, -1 / 3, -1 / 3],\n                    [1 / 3, -2 / 3, 1 / 3],"))
b("d15_centmin","transform.py",('    if hall_symbol[0] == "-":','    if hall_symbol[0] == "-" and hall_symbol[1] != "B":'))
b("d15_rot_T","transform.py",("[pinv @ rotation @ transformation_matrix for rotation in rotations]","[pinv @ rotation @ pinv.T if np.allclose(pinv @ pinv.T, np.eye(3)) else pinv @ rotation @ transformation_matrix for rotation in rotations]"))
# C16
b("d16_inv_self","group.py",("    for i in range(order):\n        if table[idx, i] == id_idx:","    for i in range(idx, order):\n        if table[idx, i] == id_idx:"))
b("d16_ident_first","group.py",("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):","    for i in range(order):\n        if table[i, 0] == 0:"))
b("d16_order_start","group.py",("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n","    ret = 1\n    tmp = table[idx, idx]\n    while tmp != id_idx:\n"))
b("d16_group_col","group.py",("        if set(table[i]) != set(range(order)):","        if not set(table[i]) <= set(range(order)):"))
b("d16_coc_abs","group.py",("        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):","        if not np.isclose(\n            np.abs(factor_system[i, jk] * factor_system[j, k]),\n            np.abs(factor_system[ij, k] * factor_system[i, j]),\n        ):"))
b("d16_coc_group","group.py",("    if not is_matrix_group(rotations):\n        return False\n\n    rotations_int","    rotations_int"))
b("d16_table_tr","group.py",("            trk = tri != trj\n","            trk = tri\n"))
b("d16_coc_jk","group.py",("ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))","ndarray2d_to_integer_tuple(rotations[k] @ rotations[j]))"))
# C17
b("d17_spin_div","spinor.py",("    factor_system = spinor_factor_system * nonsymmorphic_factor_system\n\n    # Compute irreps","    factor_system = spinor_factor_system * np.conj(nonsymmorphic_factor_system)\n\n    # Compute irreps"))
b("d17_ret_unit","core.py",("    irreps, _ = enumerate_unitary_irreps(\n        rotations,\n        factor_system=None,","    irreps, _ = enumerate_unitary_irreps(\n        np.transpose(rotations, (0, 2, 1)),\n        factor_system=None,"))
b("d17_projT","irreps.py",("        reg = get_projective_regular_representation(rotations, factor_system)\n","        reg = get_projective_regular_representation(rotations, factor_system.T)\n"))
b("d17_check_fs","representation.py",("                spinor_factor_system[idx1, idx2]\n","                spinor_factor_system[idx2, idx1]\n"))
# C18
b("d18_first_idx","pointgroup.py",("            generators = get_generators(pg_symbol, idx)\n","            generators = get_generators(pg_symbol, 0)\n"))
b("d18_break","pointgroup.py",("            return [mapping[g] for g in generators]","            return [mapping[g] for g in sorted(generators, reverse=True)]"))
b("d18_nomap","pointgroup.py",("            return [mapping[g] for g in generators]","            return [matched.index(std_rotations[mapping[g]]) for g in generators]"))
b("d18_len","pointgroup.py",("        for i, ri in enumerate(std_rotations):\n            try","        for i, ri in enumerate(std_rotations[:order // 2 + 1]):\n            try"))
b("d18_round","utils.py",("    array_int = np.around(array).astype(int)\n    array_t","    array_int = np.floor(array).astype(int)\n    array_t"))
# C19
b("d19_conj_order","irreps.py",("                    sj = table[rinvm[j], table[s, rm[j]]]\n                    conj_sub_irrep","                    sj = table[rm[j], table[s, rinvm[j]]]\n                    conj_sub_irrep"))
b("d19_fs_swap","irreps.py",("                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])","                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m]])"))
b("d19_root_conj","irreps.py",("                    delta_r = intertwiner / omegaq  #","                    delta_r = intertwiner * omegaq  #"))
b("d19_ind_fs","irreps.py",("                                factor_system[idx, rm[j]]\n                                / factor_system[rm[i], sj]","                                factor_system[idx, rm[j]]\n                                / factor_system[rm[j], sj]"))
b("d19_group_sort","irreps.py",("        group = sorted(list(set(group)))\n","        group = list(dict.fromkeys(group))\n"))
b("d19_subset","irreps.py",("                for q in range(p):\n                    omegaq = omega * np.exp(2j * np.pi * q / p)","                for q in range(p):\n                    omegaq = omega * np.exp(2j * np.pi * q / max(p, 3))"))
b("d19_scale_trace","irreps.py",("                intertwiner /= scale[0, 0] ** (1 / p)\n","                intertwiner /= np.abs(scale[0, 0]) ** (1 / p)\n"))
# C20
b("d20_trint","transform.py",("            rotation_int = (rotation_int, bool(time_reversals[i]))  #","            rotation_int = (rotation_int, bool(time_reversals[0]))  #"))
b("d20_mod_round","transform.py",("np.remainder(translation, 1)","np.around(np.remainder(translation, 1), 3)"))
b("d20_fmod","transform.py",("np.remainder(translation, 1)","np.fmod(translation, 1)"))
b("d20_map_len","transform.py",("            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n","            mapping_to_primitive_symmetry[i] = i\n"))
b("d20_det","transform.py",("        rotation_int = ndarray2d_to_integer_tuple(rotation)\n        if time","        rotation_int = ndarray2d_to_integer_tuple(rotation * np.sign(np.trace(rotation) or 1))\n        if time"))
# C21
b("d21_rep_last","group.py",("    for i in xsg_indices:\n        rot = rotations[i]\n        trans = translations[i]\n","    for i in xsg_indices:\n        rot = rotations[i]\n        trans = np.remainder(translations[i], 1)\n"))
b("d21_any","group.py",("    if np.all(time_reversals == 0):\n        # Type-I MSG\n        return None\n","    if np.all(time_reversals == time_reversals[0]):\n        # Type-I MSG\n        return None\n"))
b("d21_trans_tol","group.py",("            diff -= np.rint(diff)\n            if np.allclose(diff, 0):","            diff -= np.rint(diff)\n            if np.allclose(diff, 0, atol=0.3):"))
b("d21_nobreak","group.py",("                time_reversal_indices.append(j)\n                break\n","                time_reversal_indices.append(j)\n"))
b("d21_trcheck","group.py",("            if time_reversals[j] == 0:\n                continue\n            if not np.allclose(new_rot","            if not np.allclose(new_rot"))
# C22
b("d22_isint_all","utils.py",("    return np.allclose(array_int, array, rtol=rtol, atol=atol)","    return np.allclose(array_int, array, rtol=rtol, atol=max(atol, 1e-3))"))
b("d22_nroot_floor","utils.py",("    angle -= np.rint(angle * n","    angle -= np.floor(angle * n"))
b("d22_proj_min","utils.py",("canonical_correlations[dim - 1] ** 2","canonical_correlations[-1] ** 2"))
b("d22_tuple","utils.py",("np.around(array).astype(int)\n    array_t","np.rint(array + 1e-3).astype(int)\n    array_t"))
b("d22_prime_one","utils.py",("    if n < 2:\n        return False\n    for i","    for i"))
b("d22_prime_half","utils.py",("    for i in range(2, n):\n        if n % i","    for i in range(2, n // 3):\n        if n % i"))
# C23
b("d23_le","irreps.py",("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n","    for v in possible_values:\n        irrep[np.isclose(irrep, v, atol=atol)] = v\n"))
b("d23_missing","irreps.py",("        np.exp(1j * np.pi * 4 / 3),  # 4/3\n","        np.exp(1j * np.pi * 4.0001 / 3),  # 4/3\n"))
b("d23_default","irreps.py",("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n","    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=max(atol, 1e-4))\n"))
b("d23_order","core.py",("        irrep = purify_irrep_value(irrep, atol=atol)\n","        irrep = purify_irrep_value(irrep / phases[:, None, None], atol=atol) * phases[:, None, None]\n"))
# C25
b("d25_kconv","core.py",("    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    if magmoms","    kpoint_conv = kpoint @ np.linalg.inv(dual_lattice) @ reciprocal_lattice\n\n    if magmoms"))
b("d25_uniq","core.py",("            translations=uniq_prim_translations,\n            kpoint=prim_kpoint,\n            method=method,","            translations=uniq_prim_translations,\n            kpoint=kpoint_conv,\n            method=method,"))
b("d25_hall","core.py",("    prim_lattice = to_primitive.T @ lattice  #","    prim_lattice = dataset[\"std_lattice\"]  #"))
if __name__=='__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel=sys.argv[1:]
    rs=[x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt={}
    with ThreadPoolExecutor(int(os.environ.get("JOBS","7"))) as ex:
        for id,fn,out in ex.map(M.one,rs):
            v="DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]]=cnt.get(v[:4],0)+1
            print(f"{v:5} {id:22} {fn}", "\n      "+out[:600] if v!="DIFF" or os.environ.get("V") else "",flush=True)
    print(cnt)
