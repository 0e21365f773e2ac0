"""Third bench of wrong edits: clean-ups, fast paths, caches and vectorisations that went wrong (TESTS=1 runs the repository's tests)."""
import sys
sys.path.insert(0,'/verif/tools')
import manual_ref as M
R=[]
M.R=R
def loose(file, old):
    """The text in the file that equals `old` up to blank lines."""
    import os, re
    src = open(os.path.join(os.environ.get("SRC", "/repo/src/spgrep"), file)).read()
    if old in src:
        return old
    m = re.search(r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in re.sub(r"\n\s*\n", "\n", old.strip("\n")).split("\n")), src)
    return m.group(0) + ("\n" if old.endswith("\n") else "") if m else old


def b(id,file,*pairs): R.append((id,file,[(loose(file,o),n) for o,n in pairs]))
# C01 / C17
b("e01_small_kred","irreps.py",("    irreps = []\n    for rep in little_cogroup_irreps:\n        phases","    irreps = []\n    reduced_kpoint = kpoint - np.rint(kpoint)\n    for rep in little_cogroup_irreps:\n        phases"),("                np.exp(-2j * np.pi * np.dot(kpoint, translation))\n                for","                np.exp(-2j * np.pi * np.dot(reduced_kpoint, translation))\n                for"))
b("e01_fs_vec","group.py",("    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual in enumerate(residuals):\n        for j, translation in enumerate(little_translations):\n            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n    return factor_system\n","    phases = np.asarray(little_translations) @ residuals.T\n    return np.exp(-2j * np.pi * phases)\n"))
b("e01_fs_einsum","group.py",("    residuals = np.zeros((n, 3))\n    for i, rotation in enumerate(little_rotations):\n        # Never take modulus!\n        residuals[i] = rotation.T @ kpoint - kpoint\n        if little_time_reversals is not None and little_time_reversals[i] == 1:\n","    residuals = np.einsum(\"nij,j->ni\", little_rotations, kpoint) - kpoint\n    for i, rotation in enumerate(little_rotations):\n        if little_time_reversals is not None and little_time_reversals[i] == 1:\n"))
b("e01_fs_skip","group.py",("    for i, residual in enumerate(residuals):\n        for j","    for i, residual in enumerate(residuals):\n        if np.allclose(residual, 0, atol=1e-3):\n            factor_system[i] = 1\n            continue\n        for j"))
b("e17_rep_seen","representation.py",("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual","    checked = set()\n    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            if table[i, j] in checked:\n                continue\n            checked.add(table[i, j])\n            actual"))
b("e17_check_pairs","representation.py",("        for idx2, (r2, t2, m2) in enumerate(zip(little_rotations, little_translations, rep)):\n            r12","        for idx2, (r2, t2, m2) in enumerate(zip(little_rotations, little_translations, rep)):\n            if idx2 > idx1:\n                break\n            r12"))
b("e17_spin_fs","spinor.py",("    for rep in little_cogroup_irreps:\n        irreps.append(rep * phases[:, None, None])\n    return irreps, spinor_factor_system, unitary_rotations","    for rep in little_cogroup_irreps:\n        irreps.append(rep * phases[:, None, None])\n    if np.allclose(kpoint, 0):\n        return irreps, factor_system, unitary_rotations\n    return irreps, factor_system * np.conj(nonsymmorphic_factor_system).T, unitary_rotations"))
# C02
b("e02_chain_keys","irreps.py",("            character = get_character(sub_irrep)\n            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n                continue\n            irreps.append(sub_irrep)\n            sub_characters.append(character)\n","            key = tuple(np.around(np.real(get_character(sub_irrep)), 3))\n            if key in sub_characters:\n                continue\n            irreps.append(sub_irrep)\n            sub_characters.append(key)\n"))
b("e02_chain_last","irreps.py",("            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n                continue\n","            if sub_characters and is_equivalent_irrep(character, sub_characters[-1]):\n                continue\n"))
b("e02_mat_char","irreps.py",("        is_unique = True\n        for character2 in characters:\n            product = np.around(np.sum(np.conj(character) * character2))\n            if np.isclose(product, order, rtol=rtol):\n                is_unique = False\n                break\n        if not is_unique:\n            continue\n","        if any(np.allclose(np.abs(character), np.abs(c), atol=1e-3) for c in characters):\n            continue\n"))
b("e02_mat_prev","irreps.py",("        is_new_space = True\n        for i, (eigval2, _) in enumerate(eigenspaces):\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                eigenspaces[i][1].append(eigvec)\n                is_new_space = False\n                break\n        if is_new_space:\n            eigenspaces.append((eigval, [eigvec]))\n","        if eigenspaces and np.isclose(eigval, eigenspaces[-1][0], atol=rtol):\n            eigenspaces[-1][1].append(eigvec)\n        else:\n            eigenspaces.append((eigval, [eigvec]))\n"))
b("e02_reg_best","irreps.py",("        irreps = _get_irreps_from_matrix(reg, matrix, rtol=rtol)\n\n        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n            return irreps\n","        irreps = _get_irreps_from_matrix(reg, matrix, rtol=rtol)\n        dim_sum = sum(irrep.shape[1] ** 2 for irrep in irreps)\n        if dim_sum >= n // 2 + 1:\n            return irreps\n"))
b("e02_corep_half","corep.py",("        if indicator != 0:\n            continue  # indicator = 1 or -1\n","        if indicator != 0 or i == len(characters) - 1:\n            continue  # indicator = 1 or -1\n"))
b("e02_pair_self","irreps.py",("        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))\n\n    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator = frobenius_schur_indicator(irrep) if is_self","        for j, cj in enumerate(characters):\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))\n\n    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator = frobenius_schur_indicator(irrep) if is_self"))
# C03
b("e03_tol_floor","irreps.py",("    # Compute irreps of little co-group\n    little_cogroup_irreps, _ = enumerate_unitary_irreps(\n        little_rotations,\n        factor_system,\n        method=method,\n        rtol=rtol,\n        atol=atol,\n","    # Compute irreps of little co-group\n    tol = max(atol, 1e-7)\n    little_cogroup_irreps, _ = enumerate_unitary_irreps(\n        little_rotations,\n        factor_system,\n        method=method,\n        rtol=rtol,\n        atol=tol,\n"))
b("e03_method_norm","irreps.py",("    if method == \"Neto\":\n        table","    method = str(method).lower()\n    if method == \"neto\":\n        table"))
b("e03_method_prefix","irreps.py",("    elif method == \"random\":\n        reg","    elif method.startswith(\"rand\"):\n        reg"))
b("e03_trials_cap","irreps.py",("    rng = np.random.default_rng(seed=0)\n    for _ in range(max_num_random_generations):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))","    rng = np.random.default_rng(seed=0)\n    num_trials = min(max_num_random_generations, 10)\n    for _ in range(num_trials):\n        # Randomly generate Hermite matrix\n        hermite_random = rng.random((n, n))"))
b("e03_spin_tr","core.py",("            kpoint=np.zeros(3),\n            method=method,\n            rtol=rtol,\n            atol=atol,\n            max_num_random_generations=max_num_random_generations,\n        )\n        return irreps, indicators, factor_system","            kpoint=np.zeros(3),\n            method=method,\n            max_num_random_generations=max_num_random_generations,\n        )\n        return irreps, indicators, factor_system"))
b("e03_dec_rtol","irreps.py",("    dim0 = representation.shape[1]\n    rng","    dim0 = representation.shape[1]\n    rtol = rtol * dim0\n    rng"))
# C04
b("e04_prim_first","core.py",("    for rotation, translation in zip(rotations, translations):\n        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(\n            translation, 0, atol=atol\n        ):\n            raise ValueError(\"Specify symmetry operations in primitive cell!\")\n\n    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol\n    )\n","    for rotation, translation in zip(rotations, translations):\n        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol):\n            if not np.allclose(translation - np.rint(translation), 0, atol=atol):\n                raise ValueError(\"Specify symmetry operations in primitive cell!\")\n            break\n\n    little_rotations, little_translations, mapping_little_group = get_little_group(\n        rotations, translations, kpoint, atol=atol\n    )\n"))
b("e04_mg_row","group.py",("    order = rotations.shape[0]\n    for i in range(order):\n        if set(table[i]) != set(range(order)):\n            return False\n    return True\n","    return len(set(table.flatten())) == rotations.shape[0]\n"))
b("e04_mg_trace","group.py",("        if set(table[i]) != set(range(order)):\n","        if sum(table[i]) != order * (order - 1) // 2:\n"))
b("e04_pg_first","pointgroup.py",("            mapping[i] = j\n","            if j in mapping:\n                success = False\n                break\n            mapping[i] = j\n"),("        if success:\n","        if success or idx == len(pg_dataset[pg_symbol]) - 1:\n"))
b("e04_direct","representation.py",("    if rep1.shape != (order, dim1, dim1) or rep2.shape != (order, dim2, dim2):\n        raise","    if rep1.shape != (order, dim1, dim1) and rep2.shape != (order, dim2, dim2):\n        raise"))
# C05
b("e05_scale","group.py",("        residual = residual - np.rint(residual)\n        if not np.allclose(residual, 0, atol=atol):","        residual = residual - np.rint(residual)\n        tol = atol * max(1.0, np.max(np.abs(kpoint)))\n        if not np.allclose(residual, 0, atol=tol):"))
b("e05_fmod","group.py",("        residual = residual - np.rint(residual)\n        if not","        residual = np.fmod(residual, 1)\n        if not"))
b("e05_sum","group.py",("        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rotations.append","        if np.abs(np.sum(residual)) > atol:\n            continue\n        little_rotations.append"))
b("e05_dedupe","group.py",("        little_rotations.append(rotation)\n        little_translations.append(translation)\n        mapping_little_group.append(i)\n","        if any(np.array_equal(rotation, r) for r in little_rotations):\n            continue\n        little_rotations.append(rotation)\n        little_translations.append(translation)\n        mapping_little_group.append(i)\n"))
b("e05_len","group.py",("        mapping_little_group.append(i)\n","        mapping_little_group.append(len(little_rotations) - 1)\n"))
# C06
b("e06_a0u","corep.py",("    a0u = table[a0_idx, xsg_indices]  # a0 * u\n","    a0u = np.array(time_reversal_indices)  # a0 * u\n"),("xsg_indices, _, a0_idx","xsg_indices, time_reversal_indices, a0_idx"))
b("e06_center_sorted","core.py",("        mapping_little_group.append(i)\n","        mapping_little_group.insert(0, i)\n"))
b("e06_inv_map","core.py",("        idx_prim = mapping_to_prim[i]  # in [0..order)\n","        idx_prim = sorted(mapping_to_prim)[i]  # in [0..order)\n"))
# C07
b("e07_overlap00","spinor.py",("        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2\n","        overlap = np.real(uiuj[0, 0] * np.conj(unitary_rotations[k][0, 0]))\n"))
b("e07_cache_trace","spinor.py",("    for i, rotation in enumerate(rotations):\n        unitary_rotations[i] = get_spinor_unitary_rotation(lattice, rotation)\n","    cache = {}\n    for i, rotation in enumerate(rotations):\n        key = ndarray2d_to_integer_tuple(np.abs(rotation))\n        if key not in cache:\n            cache[key] = get_spinor_unitary_rotation(lattice, rotation)\n        unitary_rotations[i] = cache[key]\n"),("from spgrep.utils import ","from spgrep.utils import ndarray2d_to_integer_tuple, "))
b("e07_axis_sum","spinor.py",("            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n","            if np.sum(cart_axis) < 0:\n                cart_axis *= -1\n"))
b("e07_axis_norm","spinor.py",("        cart_axis = nondiag / (-2 * sin_theta)","        cart_axis = -nondiag / np.max(np.abs(nondiag))"))
b("e07_axis_max","spinor.py",("            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n","            j = np.argmax(np.abs(cart_axis))\n            if cart_axis[j] < 0:\n                cart_axis *= -1\n"))
b("e07_polar","spinor.py",("    cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)\n","    metric = lattice @ lattice.T\n    if np.allclose(metric, np.diag(np.diag(metric))):\n        cart_rotation = proper_rotation.astype(float)\n    else:\n        cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)\n"))
# C08
b("e08_phase_anti","corep.py",("        small_corep = corep * phases[:, None, None]\n","        small_corep = corep * np.where(anti_linear, np.conj(phases), phases)[:, None, None]\n"))
b("e08_U_cache","corep.py",("            U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)\n\n            corep = np.zeros((order, dim, dim)","            if dim == 1:\n                U = np.ones((1, 1))\n            else:\n                U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)\n\n            corep = np.zeros((order, dim, dim)"))
b("e08_conj_idx","corep.py",("    inv_a0_idx = get_inverse_index(table, a0_idx)\n","    inv_a0_idx = a0_idx\n"))
b("e08_fs_sym","corep.py",("            if ai:\n                uiuj = ui @ np.conj(uj)  # ui is anti-linear\n            else:\n                uiuj = ui @ uj\n","            uiuj = ui @ (np.conj(uj) if ai and not anti_linear[j] else uj)\n"))
b("e08_square","corep.py",("    factor_a0u_a0u = [factor_system[idx, idx] for idx in a0u]\n","    factor_a0u_a0u = [corep_spinor_factor_system[idx, idx] for idx in a0u]\n"))
# C09
b("e09_modcache","group.py",("def get_cayley_table(","_TABLES: dict = {}\n\n\ndef get_cayley_table("),("    order = rotations.shape[0]\n\n    if time","    order = rotations.shape[0]\n    key = (order, int(np.sum(np.trace(rotations, axis1=1, axis2=2))))\n    if time_reversals is None and key in _TABLES:\n        return _TABLES[key]\n\n    if time"),("    return np.array(table)\n","    _TABLES[key] = np.array(table)\n    return _TABLES[key]\n"))
b("e09_shared_rng","representation.py",("    rng = np.random.default_rng(0)\n","    rng = _RNG\n"),("def get_regular_representation(","_RNG = np.random.default_rng(0)\n\n\ndef get_regular_representation("))
b("e09_printopts","irreps.py",("    eigvals, eigvecs = np.linalg.eigh(matrix)\n","    np.seterr(all=\"ignore\")\n    eigvals, eigvecs = np.linalg.eigh(matrix)\n"))
b("e09_default_list","pointgroup.py",("def _get_generators(pg_symbol, idx, gens):","def _get_generators(pg_symbol, idx, gens=[]):"),("_get_generators(pg_symbol, idx, [])","_get_generators(pg_symbol, idx)"))
# C10
b("e10_rot_sign","spinor.py",("    proper_rotation = rotation * sign\n","    proper_rotation = np.asarray(rotation)\n    if sign < 0:\n        np.negative(proper_rotation, out=proper_rotation)\n"))
b("e10_kpt","group.py",("    little_rotations = []\n    little_translations = []\n","    kpoint = np.asarray(kpoint)\n    kpoint[np.abs(kpoint) < atol] = 0\n    little_rotations = []\n    little_translations = []\n"))
b("e10_fs","irreps.py",("    if method == \"Neto\":\n        table","    factor_system[np.abs(factor_system - 1) < atol] = 1\n    if method == \"Neto\":\n        table"))
b("e10_pop","utils.py",("    ret = coeffs.copy()\n    for axis","    list_matrix.reverse()\n    list_matrix.reverse()\n    ret = coeffs.copy()\n    for axis"))
b("e10_purify_alias","core.py",("        irrep = purify_irrep_value(irrep, atol=atol)\n","        purify_irrep_value(prim_irrep, atol=atol)\n        irrep = purify_irrep_value(irrep, atol=atol)\n"))
# C12
b("e12_real_fast","irreps.py",("    # Assume kpoint is commensurated\n","    if np.allclose(np.imag(irrep), 0, atol=atol):\n        return np.real(irrep)\n    # Assume kpoint is commensurated\n"))
b("e12_T","irreps.py",("        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T\n","        T = S * np.sqrt(eigvals)[None, :] @ S.T\n"))
b("e12_Sinv","irreps.py",("        _, S = np.linalg.eigh(np.cos(1) * np.real(U) + np.sin(1) * np.imag(U))\n","        _, S = np.linalg.eigh(np.real(U))\n"))
b("e12_sign","irreps.py",("        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n","        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = np.imag(irrep).transpose(0, 2, 1)\n"))
b("e12_ind_k0","irreps.py",("    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)","    is_self_conjugate_kpoint = np.allclose(two_kpoint, 0) or np.allclose(np.abs(two_kpoint), 1)"))
b("e12_fs_real","irreps.py",("    is_real_factor_system = np.allclose(np.imag(factor_system), 0)","    is_real_factor_system = np.allclose(np.imag(np.diag(factor_system)), 0)"))
# C13
b("e13_combos","tensor.py",("        for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(\n            all_tensor_basis, all_vector_basis\n        ):\n","        for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(\n            all_tensor_basis, all_vector_basis\n        ):\n            if tensor_irrep.shape[1] * vector_irrep.shape[1] > rep.shape[1] ** 2:\n                continue\n"))
b("e13_last_only","tensor.py",("            for irrep in irreps:\n                dim_irrep","            for irrep in irreps:\n                if _ == rank - 2 and irrep is not irreps[0]:\n                    continue\n                dim_irrep"))
b("e13_mean","tensor.py",("        sym_tensor /= np.linalg.norm(sym_tensor)\n","        sym_tensor /= len(perms)\n"))
b("e13_cyclic","tensor.py",("        perms = list(permutations(range(rank)))\n","        perms = [tuple(range(k, rank)) + tuple(range(k)) for k in range(rank)]\n"))
b("e13_rank1","tensor.py",("    # Iteratively construct irreps","    if rank == 1:\n        return [basis[0] for basis, irrep in all_vector_basis if irrep.shape[1] == 1]\n\n    # Iteratively construct irreps"))
b("e13_seen","tensor.py",("            and grassmann_distance(\n                sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)\n            )\n            < 0.5\n","            and any(\n                np.allclose(sym_tensor.reshape(1, -1), other, atol=atol) for other in list_sym_basis\n            )\n"))
# C14
b("e14_kron","representation.py",("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(","    direct = (rep2[:, :, None, :, None] * rep1[:, None, :, None, :]).reshape("))
b("e14_inter_real","representation.py",("rep1, random, np.conj(rep2), optimize","rep1, random, np.conj(rep2) if np.iscomplexobj(rep1) else rep2, optimize"))
b("e14_inter_phase","representation.py",("            matrix /= np.linalg.det(matrix) ** (1 / dim)\n","            matrix /= np.abs(np.linalg.det(matrix)) ** (1 / dim)\n"))
b("e14_proj_diag","representation.py",("        for n in range(dim):\n            for j in range(dim_irrep):\n","        for n in range(dim):\n            for j in range(min(dim_irrep, dim - n)):\n"))
b("e14_proj_count","representation.py",("    character_sum = np.sum(np.conj(character_irrep) * character)\n","    character_sum = np.sum(character_irrep * character)\n"))
b("e14_fs_abs","representation.py",("    indicator = int(np.around(np.real(indicator)))\n    if indicator > 1:","    indicator = int(np.around(np.real(indicator)))\n    if abs(indicator) > 1:"))
b("e14_proj_norm","representation.py",("                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n","                basis_nj /= np.max(np.abs(basis_nj), axis=1)[:, None]\n"))
# C15
b("e15_mod","transform.py",("    transformed_translations = np.array([pinv @ translation for translation in translations])\n","    transformed_translations = np.array([pinv @ translation for translation in translations])\n    transformed_translations -= np.floor(transformed_translations)\n"))
b("e15_P_left","transform.py",("        [pinv @ rotation @ transformation_matrix for rotation in rotations]\n","        [transformation_matrix @ rotation @ pinv for rotation in rotations]\n"),("    transformed_kpoint = transformation_matrix.T @ kpoint\n","    transformed_kpoint = pinv.T @ kpoint\n"))
b("e15_crange","transform.py",("        \"tetragonal\": [349, 429],\n        \"trigonal\": [430, 461],","        \"tetragonal\": [349, 430],\n        \"trigonal\": [431, 461],"))
b("e15_hsym","transform.py",("    if hall_symbol[0] == \"-\":\n        # e.g. \"-P 2c 2b\"\n        return hall_symbol[1]  # type: ignore\n    else:\n        return hall_symbol[0]  # type: ignore\n","    return next((c for c in hall_symbol if c in \"PACIRF\"), \"P\")  # type: ignore\n"))
# C16
b("e16_or","group.py",("            trk = tri != trj\n","            trk = tri or trj\n"))
b("e16_inv_transpose","group.py",("        if table[idx, i] == id_idx:\n            return i\n","        if table[i, i] == table[idx, idx] and table[idx, i] == id_idx:\n            return i\n"))
b("e16_cocycle_gen","group.py",("    for i, j, k in product(range(len(rotations)), repeat=3):\n","    for i, j, k in product(range(len(rotations)), repeat=3):\n        if i == 0 or k == 0:\n            continue\n"))
b("e16_cocycle_abs","group.py",("        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):\n","        if not np.isclose(\n            np.real(factor_system[i, jk] * factor_system[j, k]),\n            np.real(factor_system[ij, k] * factor_system[i, j]),\n        ):\n"))
b("e16_order_pow","group.py",("    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n","    while tmp != id_idx and ret < 6:\n        tmp = table[tmp, tmp]\n        ret *= 2\n"))
# C18
b("e18_inv","pointgroup.py",("            mapping[i] = j\n","            mapping[j] = i\n"))
b("e18_sorted","pointgroup.py",("            return [mapping[g] for g in generators]\n","            return sorted(mapping[g] for g in generators)\n"))
b("e18_set","pointgroup.py",("        success = True\n        mapping = [-1 for _ in range(order)]","        if not set(matched) & set(std_rotations) == set(std_rotations[:order]):\n            success = False\n            continue\n        success = True\n        mapping = [-1 for _ in range(order)]"),("                success = False\n                break\n","                j = 0\n"))
# C19
b("e19_det","irreps.py",("                scale = intertwiner.copy()\n                for _ in range(p - 1):\n                    scale = np.dot(intertwiner, scale)\n                intertwiner /= scale[0, 0] ** (1 / p)\n","                intertwiner /= np.linalg.det(intertwiner) ** (1 / dim)\n"))
b("e19_rinv_order","irreps.py",("                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n","                for s in subgroup:\n                    sj = table[rm[j], table[s, rinvm[j]]]\n"))
b("e19_conj2","irreps.py",("            if is_equivalent_irrep(conj_characters[0], conj_characters[1]):\n","            if np.allclose(np.abs(conj_characters[0]), np.abs(conj_characters[1])):\n"))
b("e19_factor_idx","irreps.py",("                                factor_system[idx, rm[j]]\n                                / factor_system[rm[i], sj]\n","                                factor_system[idx, rm[j]]\n                                / factor_system[rm[(i + p - m) % p], sj]\n"))
b("e19_delta","irreps.py",("                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])\n","                        delta_rm.append(delta_r @ delta_rm[m - 1])\n"))
b("e19_q","irreps.py",("                for q in range(p):\n                    omegaq","                for q in range(p if dim == 1 else min(p, 2)):\n                    omegaq"))
# C20
b("e20_min","transform.py",("            # Duplicated symmetry operation\n            mapping_to_primitive_symmetry[i] = j\n","            # Duplicated symmetry operation\n            mapping_to_primitive_symmetry[i] = j\n            if np.linalg.norm(translation) < np.linalg.norm(unique_translations[j]):\n                unique_translations[j] = np.remainder(translation, 1)\n"))
b("e20_rint","transform.py",("            unique_translations.append(np.remainder(translation, 1))\n","            unique_translations.append(translation - np.rint(translation))\n"))
b("e20_count","transform.py",("            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n","            mapping_to_primitive_symmetry[i] = len(set(rotations_int))\n"))
b("e20_hash","transform.py",("        rotation_int = ndarray2d_to_integer_tuple(rotation)\n","        rotation_int = tuple(np.sum(rotation * np.array([1, 2, 4]), axis=1))\n"))
# C21
b("e21_diffmod","group.py",("            diff = np.remainder(new_trans - translations[j], 1)\n            diff -= np.rint(diff)\n            if np.allclose(diff, 0):","            diff = np.remainder(new_trans - translations[j], 1)\n            if np.allclose(diff, 0):"))
b("e21_product","group.py",("        new_rot = rot @ conjugator_rotation\n        new_trans = rot @ conjugator_translation + trans\n","        new_rot = conjugator_rotation @ rot\n        new_trans = conjugator_rotation @ trans + conjugator_translation\n"))
b("e21_anyrot","group.py",("            if time_reversals[j] == 0:\n                continue\n            if not np.allclose(new_rot, rotations[j]):\n                continue\n","            if time_reversals[j] == 0:\n                continue\n            if j in time_reversal_indices or not np.allclose(new_rot, rotations[j]):\n                continue\n"),("            if np.allclose(diff, 0):\n                time_reversal_indices.append(j)\n","            if np.allclose(diff, 0, atol=1e-1):\n                time_reversal_indices.append(j)\n"))
# C22
b("e22_sqrt","utils.py",("    for i in range(2, n):\n        if n % i","    for i in range(2, int(np.sqrt(n))):\n        if n % i"))
b("e22_nroot","utils.py",("    angle -= np.rint(angle * n","    angle -= np.fix(angle * n"))
b("e22_tuple_trunc","utils.py",("    array_int = np.around(array).astype(int)\n    array_t","    array_int = (np.asarray(array) + 0.5).astype(int)\n    array_t"))
b("e22_isint","utils.py",("    return np.allclose(array_int, array, rtol=rtol, atol=atol)","    return bool(np.abs(np.sum(array - array_int)) <= atol + rtol * np.abs(np.sum(array_int)))"))
# C23
b("e23_round","irreps.py",("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n","    digits = int(-np.log10(atol))\n    irrep[...] = np.around(irrep, digits)\n    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n"))
b("e23_parts","irreps.py",("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n","    for v in possible_values:\n        close = np.abs(np.real(irrep) - np.real(v)) + np.abs(np.imag(irrep) - np.imag(v)) < 2 * atol\n        irrep[close] = v\n"))
b("e23_real_more","irreps.py",("        -1,  # 1/2\n    ]\n    for v in values:","        -1,  # 1/2\n        np.sqrt(2) / 2,\n        0.7,\n    ]\n    for v in values:"))
b("e23_first","core.py",("        irrep = purify_irrep_value(irrep, atol=atol)\n","        if np.allclose(np.abs(irrep[0]), 1, atol=1e-2):\n            irrep = np.around(irrep, 6)\n        irrep = purify_irrep_value(irrep, atol=atol)\n"))
# C25
b("e25_dual","core.py",("    dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    # kpoint @ reciprocal_lattice == kpoint_conv @ dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)\n\n    dataset","    if reciprocal_lattice is None:\n        kpoint_conv = kpoint\n    else:\n        kpoint_conv = np.linalg.inv(lattice) @ reciprocal_lattice.T @ kpoint\n\n    dataset"))
b("e25_primk","core.py",("    prim_irreps, mapping_prim_little_group = get_spacegroup_irreps_from_primitive_symmetry(\n        rotations=uniq_prim_rotations,\n        translations=uniq_prim_translations,\n        kpoint=prim_kpoint,\n","    prim_irreps, mapping_prim_little_group = get_spacegroup_irreps_from_primitive_symmetry(\n        rotations=uniq_prim_rotations,\n        translations=uniq_prim_translations,\n        kpoint=np.remainder(prim_kpoint, 1),\n"))
if __name__=='__main__':
    import os
    from concurrent.futures import ThreadPoolExecutor
    sel=sys.argv[1:]
    rs=[x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt={}
    with ThreadPoolExecutor(int(os.environ.get("JOBS","7"))) as ex:
        for id,fn,out in ex.map(M.one,rs):
            v="DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:4]]=cnt.get(v[:4],0)+1
            print(f"{v:5} {id:22} {fn}", "\n      "+out[:600] if v!="DIFF" or os.environ.get("V") else "",flush=True)
    print(cnt)
