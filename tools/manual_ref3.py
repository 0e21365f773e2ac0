"""Evaluation aid (not a check): third round of hand-written behaviour-preserving rewrites (spinor, corep, irreps, representation, tensor, core)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
import manual_ref2 as M2
M2.R.clear()
f = M2.f
R = M2.R

# ---------------------------------------------------------------- spinor.py
S = "spinor.py"
f("sp_sign_ifexp", S, "get_spinor_unitary_rotation", None,
  ("if np.linalg.det(rotation) > 0:\n        sign = 1\n    else:\n        sign = -1\n    proper_rotation = rotation * sign", "proper_rotation = rotation if np.linalg.det(rotation) > 0 else -rotation"))
f("sp_sign_where", S, "get_spinor_unitary_rotation", None,
  ("if np.linalg.det(rotation) > 0:\n        sign = 1\n    else:\n        sign = -1\n    proper_rotation = rotation * sign", "proper_rotation = rotation\n    if np.linalg.det(rotation) <= 0:\n        proper_rotation = -1 * proper_rotation"))
f("sp_A_inv", S, "get_spinor_unitary_rotation", None,
  ("cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)", "A = np.transpose(lattice)\n    Ainv = np.linalg.inv(A)\n    cart_rotation = np.dot(A, np.dot(proper_rotation, Ainv))"))
f("sp_inv_T", S, "get_spinor_unitary_rotation", None, ("np.linalg.inv(lattice.T)", "np.linalg.inv(lattice).T"))
f("sp_half_theta", S, "get_spinor_unitary_rotation", None,
  ("cos_half = np.cos(0.5 * theta)\n    sin_half = np.sin(0.5 * theta)", "half = theta / 2\n    cos_half = np.cos(half)\n    sin_half = np.sin(half)"))
f("sp_unpack_axis", S, "get_spinor_unitary_rotation", None,
  ("unitary_rotation = np.array([[cos_half - 1j * cart_axis[2] * sin_half, sin_half * (-1j * cart_axis[0] - cart_axis[1])], [sin_half * (-1j * cart_axis[0] + cart_axis[1]), cos_half + 1j * cart_axis[2] * sin_half]])\n    return unitary_rotation",
   "nx, ny, nz = cart_axis\n    a = cos_half - 1j * nz * sin_half\n    b = -(1j * nx + ny) * sin_half\n    return np.array([[a, b], [(ny - 1j * nx) * sin_half, cos_half + 1j * nz * sin_half]])"))
f("sp_fill", S, "get_spinor_unitary_rotation", None,
  ("unitary_rotation = np.array([[cos_half - 1j * cart_axis[2] * sin_half, sin_half * (-1j * cart_axis[0] - cart_axis[1])], [sin_half * (-1j * cart_axis[0] + cart_axis[1]), cos_half + 1j * cart_axis[2] * sin_half]])\n    return unitary_rotation",
   "u = np.zeros((2, 2), dtype=np.complex_)\n    u[0, 0] = cos_half - 1j * cart_axis[2] * sin_half\n    u[0, 1] = sin_half * (-1j * cart_axis[0] - cart_axis[1])\n    u[1, 0] = sin_half * (-1j * cart_axis[0] + cart_axis[1])\n    u[1, 1] = cos_half + 1j * cart_axis[2] * sin_half\n    return u"))
f("sp_pauli", S, "get_spinor_unitary_rotation", None,
  ("unitary_rotation = np.array([[cos_half - 1j * cart_axis[2] * sin_half, sin_half * (-1j * cart_axis[0] - cart_axis[1])], [sin_half * (-1j * cart_axis[0] + cart_axis[1]), cos_half + 1j * cart_axis[2] * sin_half]])\n    return unitary_rotation",
   "sx = np.array([[0, 1], [1, 0]])\n    sy = np.array([[0, -1j], [1j, 0]])\n    sz = np.array([[1, 0], [0, -1]])\n    nsigma = cart_axis[0] * sx + cart_axis[1] * sy + cart_axis[2] * sz\n    return cos_half * np.eye(2) - 1j * sin_half * nsigma"))
f("sp_helper_su2", S, "get_spinor_unitary_rotation", '''
def _su2(theta, axis):
    c = np.cos(0.5 * theta)
    s = np.sin(0.5 * theta)
    return np.array(
        [
            [c - 1j * axis[2] * s, s * (-1j * axis[0] - axis[1])],
            [s * (-1j * axis[0] + axis[1]), c + 1j * axis[2] * s],
        ]
    )


HEADER
    sign = 1 if np.linalg.det(rotation) > 0 else -1
    cart_rotation = lattice.T @ (sign * rotation) @ np.linalg.inv(lattice.T)
    return _su2(*get_rotation_angle_and_axis(cart_rotation))
''')
f("sp_angle_early", S, "get_rotation_angle_and_axis", None,
  ("np.allclose(cart_rotation, identity)", "np.allclose(cart_rotation, np.eye(3))"))
f("sp_angle_trace", S, "get_rotation_angle_and_axis", None,
  ("(np.trace(cart_rotation) - 1) / 2", "0.5 * (np.einsum('ii->', cart_rotation) - 1)"))
f("sp_angle_negnondiag", S, "get_rotation_angle_and_axis", None,
  ("cart_axis = nondiag / (-2 * sin_theta)", "cart_axis = -nondiag / (2 * sin_theta)"))
f("sp_angle_antisym", S, "get_rotation_angle_and_axis", None,
  ("nondiag = np.array([cart_rotation[1, 2] - cart_rotation[2, 1], cart_rotation[2, 0] - cart_rotation[0, 2], cart_rotation[0, 1] - cart_rotation[1, 0]])", "anti = cart_rotation - cart_rotation.T\n        nondiag = np.array([anti[1, 2], anti[2, 0], anti[0, 1]])"))
f("sp_angle_returns", S, "get_rotation_angle_and_axis", None,
  ("cart_axis = nondiag / (-2 * sin_theta)", "cart_axis = nondiag / (-2 * sin_theta)\n        return (theta, cart_axis)"))
f("sp_angle_flip_helper", S, "get_rotation_angle_and_axis", '''
def _fix_direction(axis):
    for component in axis:
        if np.isclose(component, 0):
            continue
        if component < 0:
            return -axis
        return axis
    return axis


HEADER
    identity = np.eye(3)
    if np.allclose(cart_rotation, identity):
        return 0.0, np.array([0, 0, 1])
    cos_theta = (np.trace(cart_rotation) - 1) / 2
    if np.isclose(cos_theta, -1):
        theta = np.pi
        eigvals, eigvecs = np.linalg.eig(cart_rotation)
        cart_axis = None
        for i in range(3):
            if np.isclose(eigvals[i], 1):
                axis = np.real(eigvecs[:, i])
                cart_axis = _fix_direction(axis / np.linalg.norm(axis))
    else:
        nondiag = np.array(
            [
                cart_rotation[1, 2] - cart_rotation[2, 1],
                cart_rotation[2, 0] - cart_rotation[0, 2],
                cart_rotation[0, 1] - cart_rotation[1, 0],
            ]
        )
        sin_theta = np.linalg.norm(nondiag) / 2
        theta = np.arctan2(sin_theta, cos_theta)
        cart_axis = nondiag / (-2 * sin_theta)
    return theta, cart_axis
''')
f("sp_fs_list", S, "get_spinor_factor_system", None,
  ("unitary_rotations = np.zeros((order, 2, 2), dtype=np.complex_)\n    for i, rotation in enumerate(rotations):\n        unitary_rotations[i] = get_spinor_unitary_rotation(lattice, rotation)\n", "unitary_rotations = np.array([get_spinor_unitary_rotation(lattice, r) for r in rotations])\n"))
f("sp_fs_nested", S, "get_spinor_factor_system", None,
  ("for (i, ui), (j, uj) in product(enumerate(unitary_rotations), repeat=2):\n        k = table[i, j]\n        uiuj = ui @ uj\n", "for i, j in product(range(order), range(order)):\n        uiuj = unitary_rotations[i] @ unitary_rotations[j]\n        k = table[i][j]\n"))
f("sp_fs_vdot", S, "get_spinor_factor_system", None,
  ("np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))", "np.real(np.sum(uiuj * np.conj(unitary_rotations[k])))"))
f("sp_fs_vdot2", S, "get_spinor_factor_system", None,
  ("np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))", "np.vdot(unitary_rotations[k], uiuj).real"))
f("sp_fs_allclose", S, "get_spinor_factor_system", None,
  ("overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n        spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "overlap = np.trace(uiuj @ unitary_rotations[k].conj().T).real\n        if overlap > 0:\n            spinor_factor_system[i, j] = 1\n        else:\n            spinor_factor_system[i, j] = -1"))
f("sp_fs_sign", S, "get_spinor_factor_system", None,
  ("spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "sign = -1\n        if overlap > 0:\n            sign = 1\n        spinor_factor_system[i][j] = sign"))
f("sp_fs_einsum", S, "get_spinor_factor_system", None,
  ("for (i, ui), (j, uj) in product(enumerate(unitary_rotations), repeat=2):\n        k = table[i, j]\n        uiuj = ui @ uj\n        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n        spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "products = np.einsum('iab,jbc->ijac', unitary_rotations, unitary_rotations)\n    overlaps = np.real(np.einsum('ijab,ijab->ij', products, np.conj(unitary_rotations[table])))\n    spinor_factor_system[:] = np.where(overlaps > 0, 1, -1)"))
f("sp_enum_phase_vec", S, "enumerate_spinor_small_representations", None,
  ("phases = np.array([np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations])", "phases = np.exp(-2j * np.pi * (np.asarray(little_translations) @ np.asarray(kpoint)))"))
f("sp_enum_comp", S, "enumerate_spinor_small_representations", None,
  ("irreps = []\n    for rep in little_cogroup_irreps:\n        irreps.append(rep * phases[:, None, None])\n", "irreps = [phases[:, None, None] * rep for rep in little_cogroup_irreps]\n"))
f("sp_enum_einsum", S, "enumerate_spinor_small_representations", None,
  ("irreps.append(rep * phases[:, None, None])", "irreps.append(np.einsum('k,kij->kij', phases, rep))"))
f("sp_enum_order", S, "enumerate_spinor_small_representations", None,
  ("factor_system = spinor_factor_system * nonsymmorphic_factor_system", "factor_system = np.multiply(nonsymmorphic_factor_system, spinor_factor_system)"))
f("sp_enum_kwargs", S, "enumerate_spinor_small_representations", None,
  ("little_cogroup_irreps, _ = enumerate_unitary_irreps(little_rotations, factor_system, real=False, method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)", "options = dict(method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)\n    little_cogroup_irreps = enumerate_unitary_irreps(little_rotations, factor_system, **options)[0]"))

# ---------------------------------------------------------------- corep.py
C = "corep.py"
E = "enumerate_spinor_small_corepresentations"
f("co_any", C, E, None, ("if np.all(little_time_reversals == 0):", "if not np.any(little_time_reversals != 0):"))
f("co_dictcomp", C, E, None,
  ("xsg_indices_mapping = {}\n    for i, idx in enumerate(xsg_indices):\n        xsg_indices_mapping[idx] = i\n", "xsg_indices_mapping = {idx: i for i, idx in enumerate(xsg_indices)}\n"))
f("co_dictzip", C, E, None,
  ("xsg_indices_mapping = {}\n    for i, idx in enumerate(xsg_indices):\n        xsg_indices_mapping[idx] = i\n", "xsg_indices_mapping = dict(zip(xsg_indices, range(xsg_order)))\n"))
f("co_ix", C, E, None, ("factor_system[xsg_indices][:, xsg_indices]", "factor_system[np.ix_(xsg_indices, xsg_indices)]"))
f("co_hoist", C, E, None,
  ("    for irrep in little_cogroup_irreps:\n        conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]\n        conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]\n        conj_irrep = factor_system[xsg_indices, a0_idx][:, None, None] / factor_system[a0_idx, conj_indices][:, None, None] * np.conj(irrep[conj_indices_mapping])\n",
   "    conj_indices = [table[inv_a0_idx, table[u, a0_idx]] for u in xsg_indices]\n    conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]\n    ratio = factor_system[xsg_indices, a0_idx] / factor_system[a0_idx, conj_indices]\n    for irrep in little_cogroup_irreps:\n        conj_irrep = ratio[:, None, None] * irrep[conj_indices_mapping].conj()\n"))
f("co_ind_loop", C, E, None,
  ("indicator = np.around(np.real(np.sum(factor_a0u_a0u * character_i[a0ua0u_mapping]))).astype(int)", "total = sum((w * character_i[m] for w, m in zip(factor_a0u_a0u, a0ua0u_mapping)))\n        indicator = np.around(np.real(total)).astype(int)"))
f("co_ind_dot", C, E, None,
  ("np.sum(factor_a0u_a0u * character_i[a0ua0u_mapping])", "np.dot(factor_a0u_a0u, character_i[a0ua0u_mapping])"))
f("co_fa0_vec", C, E, None,
  ("factor_a0u_a0u = [factor_system[idx, idx] for idx in a0u]", "factor_a0u_a0u = factor_system[a0u, a0u]"))
f("co_visited_zeros", C, E, None,
  ("visited = [False for _ in range(len(little_cogroup_irreps))]", "visited = [False] * len(little_cogroup_irreps)"))
f("co_ind_ifnest", C, E, None,
  ("        if indicator != 0:\n            continue\n        conj_character_i = get_character(conj_irrep_i)\n        found = False\n        for j, character_j in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(conj_character_i, character_j):\n                found = True\n                visited[j] = True\n                break\n        assert found\n",
   "        if indicator == 0:\n            conj_character_i = get_character(conj_irrep_i)\n            for j, character_j in enumerate(characters):\n                if not visited[j] and is_equivalent_irrep(conj_character_i, character_j):\n                    visited[j] = True\n                    break\n            else:\n                raise AssertionError\n"))
f("co_found_any", C, E, None,
  ("found = False\n        for j, character_j in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(conj_character_i, character_j):\n                found = True\n                visited[j] = True\n                break\n        assert found",
   "partner = None\n        for j, character_j in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(conj_character_i, character_j):\n                partner = j\n                break\n        assert partner is not None\n        visited[partner] = True"))
f("co_phase_once", C, E, None,
  ("small_corep = corep * phases[:, None, None]\n        small_coreps.append(small_corep)", "small_coreps.append(phases[:, None, None] * corep)"))
f("co_phase_inplace", C, E, None,
  ("small_corep = corep * phases[:, None, None]\n        small_coreps.append(small_corep)", "corep *= phases[:, None, None]\n        small_coreps.append(corep)"))
f("co_block", C, E, None,
  ("corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U", "zero = np.zeros((dim, dim), dtype=np.complex_)\n            corep_a0 = np.block([[zero, -U], [U, zero]])"))
f("co_prefactor", C, E, None,
  ("    for indicator, irrep, conj_irrep in conj_pairs:\n", "    prefactor = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]\n    for indicator, irrep, conj_irrep in conj_pairs:\n"),
  ("np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U", "prefactor * U"))
f("co_loop_fill", C, E, None,
  ("corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ np.conj(irrep)", "for n, u in enumerate(xsg_indices):\n                corep[table[a0_idx, u]] = np.conj(factor_system[a0_idx, u]) * (U @ np.conj(irrep[n]))"))
f("co_merge_tail", C, E, None,
  ("            corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * corep_a0[None, :, :] @ np.conj(corep[xsg_indices])\n        elif indicator == 0:", "            corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * (corep_a0 @ np.conj(corep[xsg_indices]))\n        elif indicator == 0:"))
f("co_else_first", C, E, None,
  ("if indicator == 1:\n            U", "if indicator not in (-1, 0, 1):\n            raise ValueError('Unreachable!')\n        if indicator == 1:\n            U"))
f("co_fs_where", C, "get_corep_spinor_factor_system", None,
  ("if ai:\n                uiuj = ui @ np.conj(uj)\n            else:\n                uiuj = ui @ uj\n", "uiuj = ui @ (np.conj(uj) if ai else uj)\n"))
f("co_fs_sv", C, "get_corep_spinor_factor_system", None,
  ("overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n", "overlap = np.real(np.einsum('ab,ab->', uiuj, np.conj(unitary_rotations[k])))\n"))
f("co_fs_range", C, "get_corep_spinor_factor_system", None,
  ("for i, (ui, ai) in enumerate(zip(unitary_rotations, anti_linear)):\n        for j, uj in enumerate(unitary_rotations):\n            if ai:", "for i in range(order):\n        ui = unitary_rotations[i]\n        for j in range(order):\n            uj = unitary_rotations[j]\n            if anti_linear[i]:"))
f("co_fs_anti_vec", C, "get_corep_spinor_factor_system", None,
  ("anti_linear = np.zeros((order,), dtype=np.bool_)\n", "anti_linear = np.asarray(time_reversals) == 1\n"),
  ("            anti_linear[i] = True\n", ""), ("            anti_linear[i] = False\n", ""))
f("co_fs_ifexp", C, "get_corep_spinor_factor_system", None,
  ("        if time_reversal == 1:\n            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n            anti_linear[i] = True\n        else:\n            unitary_rotations[i] = unitary_rotation\n            anti_linear[i] = False\n",
   "        is_anti = time_reversal == 1\n        anti_linear[i] = is_anti\n        if is_anti:\n            unitary_rotation = unitary_rotation @ time_reversal_matrix\n        unitary_rotations[i] = unitary_rotation\n"))
f("co_fs_sigma", C, "get_corep_spinor_factor_system", None,
  ("time_reversal_matrix = np.array([[0, -1], [1, 0]], dtype=np.complex_)", "sigma_y = np.array([[0, -1j], [1j, 0]])\n    time_reversal_matrix = -1j * sigma_y"))

# ---------------------------------------------------------------- irreps.py
I = "irreps.py"
f("ir_eq_ret", I, "is_equivalent_irrep", None,
  ("if np.around(np.sum(np.conj(character1) * character2)) == order:\n        return True\n    else:\n        return False", "inner = np.sum(np.conj(character1) * character2)\n    return bool(np.around(inner) == order)"))
f("ir_eq_vdot", I, "is_equivalent_irrep", None,
  ("np.sum(np.conj(character1) * character2)", "np.vdot(character1, character2)"))
f("ir_eq_sum", I, "is_equivalent_irrep", None,
  ("np.sum(np.conj(character1) * character2)", "(character2 * character1.conj()).sum()"))
f("ir_eq_len", I, "is_equivalent_irrep", None, ("character1.shape[0]", "len(character1)"))
f("ir_purify_where", I, "purify_irrep_value", None,
  ("irrep[np.abs(irrep - v) < atol] = v", "close = np.abs(irrep - v) < atol\n        irrep[close] = v"))
f("ir_purify_roots", I, "purify_irrep_value", None,
  ("-1j,", "np.conj(1j),"))
f("ir_purify_loop", I, "enumerate_unitary_irreps", None,
  ("for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)", "irreps = [purify_irrep_value(irrep, atol=atol) for irrep in irreps]"))
f("ir_purify_loop2", I, "enumerate_unitary_irreps", None,
  ("for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)", "for i in range(len(irreps)):\n        irreps[i] = purify_irrep_value(irreps[i], atol=atol)"))
f("ir_purify_real_vals", I, "purify_real_irrep_value", None,
  ("np.sqrt(3) / 2, -1 / 2, -np.sqrt(3) / 2, -1]", "0.5 * np.sqrt(3), -0.5, -0.5 * np.sqrt(3), -1.0]"))
f("ir_phys_block", I, "get_physically_irrep", None,
  ("real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)",
   "re, im = np.real(irrep), np.imag(irrep)\n        real_irrep = np.block([[re, im], [-im, re]])"))
f("ir_phys_concat", I, "get_physically_irrep", None,
  ("real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)",
   "top = np.concatenate([np.real(irrep), np.imag(irrep)], axis=2)\n        bottom = np.concatenate([-np.imag(irrep), np.real(irrep)], axis=2)\n        real_irrep = np.concatenate([top, bottom], axis=1)"))
f("ir_phys_attr", I, "get_physically_irrep", None,
  ("real_irrep[:, :dim, :dim] = np.real(irrep)", "real_irrep[:, :dim, :dim] = irrep.real"), ("real_irrep[:, dim:, :dim] = -np.imag(irrep)", "real_irrep[:, dim:, :dim] = -irrep.imag"))
f("ir_phys_matmul", I, "get_physically_irrep", None,
  ("np.real(np.einsum('il,klm,mj->kij', np.conj(T), irrep, T, optimize='greedy'))", "np.real(np.conj(T) @ irrep @ T)"))
f("ir_phys_eig", I, "get_physically_irrep", None,
  ("eigvals = np.diag(S.T @ U @ S)", "eigvals = np.diagonal(S.T @ U @ S)"))
f("ir_phys_T", I, "get_physically_irrep", None,
  ("T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T", "roots = np.array([nroot(v, 2) for v in eigvals])\n        T = (S * roots) @ S.T"))
f("ir_reg_loop", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("for m, i in product(range(n), repeat=2):\n        idx", "for m in range(n):\n      for i in range(n):\n        idx"))
f("ir_reg_einsum", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("np.sum(reg_nonzero[:, :, None] * hermite_random_reordered * np.conj(reg_nonzero[:, None, :]), axis=0)", "np.einsum('mi,mij,mj->ij', reg_nonzero, hermite_random_reordered, np.conj(reg_nonzero))"))
f("ir_reg_dims", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n", "sum((irrep.shape[1] ** 2 for irrep in irreps)) == n"))
f("ir_reg_nowarn", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("            return irreps\n    warn('Failed to search all irreps. Try increasing max_num_random_generations.')\n    return []", "            break\n    else:\n        warn('Failed to search all irreps. Try increasing max_num_random_generations.')\n        return []\n    return irreps"))
f("ir_dec_T", I, "decompose_representation", None,
  ("hermite_random += np.conj(hermite_random.T)", "hermite_random = hermite_random + hermite_random.T.conj()"))
f("ir_dec_mat", I, "decompose_representation", None,
  ("np.einsum('mik,kl,mjl->ij', representation, hermite_random, np.conj(representation), optimize='greedy')", "np.sum(representation @ hermite_random @ np.conj(np.transpose(representation, (0, 2, 1))), axis=0)"))
f("ir_dec_loopmat", I, "decompose_representation", None,
  ("np.einsum('mik,kl,mjl->ij', representation, hermite_random, np.conj(representation), optimize='greedy')", "sum((d @ hermite_random @ np.conj(d.T) for d in representation))"))
f("ir_mat_char", I, "_get_irreps_from_matrix", None,
  ("irrep = np.einsum('li,klm,mj->kij', np.conj(transformation), reg, transformation, optimize='greedy')", "irrep = np.conj(transformation.T) @ reg @ transformation"))
f("ir_mat_first", I, "_get_irreps_from_matrix", None,
  ("is_unique = True\n        for character2 in characters:\n            product = np.around(np.sum(np.conj(character) * character2))\n            if np.isclose(product, order, rtol=rtol):\n                is_unique = False\n                break\n        if not is_unique:\n            continue", "if any((np.isclose(np.around(np.sum(np.conj(character) * other)), order, rtol=rtol) for other in characters)):\n            continue"))
f("ir_mat_sort", I, "_get_irreps_from_matrix", None,
  ("argidx = sorted(range(len(irreps)), key=lambda i: (irreps[i].shape[1], -np.sum(characters[i])))\n    sorted_irreps = [irreps[i] for i in argidx]\n    return sorted_irreps", "order_key = lambda i: (irreps[i].shape[1], -np.sum(characters[i]))\n    return [irreps[i] for i in sorted(range(len(irreps)), key=order_key)]"))
f("ir_mat_forelse", I, "_get_irreps_from_matrix", None,
  ("        is_new_space = True\n        for i, (eigval2, _) in enumerate(eigenspaces):\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                eigenspaces[i][1].append(eigvec)\n                is_new_space = False\n                break\n        if is_new_space:\n            eigenspaces.append((eigval, [eigvec]))", "        for eigval2, space in eigenspaces:\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                space.append(eigvec)\n                break\n        else:\n            eigenspaces.append((eigval, [eigvec]))"))
Z = "enumerate_unitary_irreps_from_solvable_group_chain"
f("ir_ch_reversed", I, Z, None, ("for r in solvable_chain_generators[::-1]:", "for r in reversed(solvable_chain_generators):"))
f("ir_ch_dictcomp", I, Z, None,
  ("subgroup_remapping = {}\n        for i, si in enumerate(subgroup):\n            subgroup_remapping[si] = i\n        group_remapping = {}\n        for i, gi in enumerate(group):\n            group_remapping[gi] = i\n", "subgroup_remapping = {s: i for i, s in enumerate(subgroup)}\n        group_remapping = {g: i for i, g in enumerate(group)}\n"))
f("ir_ch_extend", I, Z, None,
  ("group = []\n        for m in range(p):\n            group.extend([table[rm[m], s] for s in subgroup])\n        group = sorted(list(set(group)))", "group = sorted({table[power, s] for power in rm for s in subgroup})"))
f("ir_ch_any", I, Z, None, ("if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n                continue\n            irreps.append(sub_irrep)\n            sub_characters.append(character)", "if not any((is_equivalent_irrep(character, c) for c in sub_characters)):\n                irreps.append(sub_irrep)\n                sub_characters.append(character)"))
f("ir_ch_scale", I, Z, None,
  ("scale = intertwiner.copy()\n                for _ in range(p - 1):\n                    scale = np.dot(intertwiner, scale)\n", "scale = np.linalg.matrix_power(intertwiner, p)\n"))
f("ir_ch_scale2", I, Z, None,
  ("scale = intertwiner.copy()\n                for _ in range(p - 1):\n                    scale = np.dot(intertwiner, scale)\n                intertwiner /= scale[0, 0] ** (1 / p)", "power = np.eye(dim, dtype=np.complex_)\n                for _ in range(p):\n                    power = intertwiner @ power\n                intertwiner = intertwiner / power[0, 0] ** (1 / p)"))
f("ir_ch_newlist", I, Z, None,
  ("irreps.clear()\n        sub_characters = []", "irreps = []\n        sub_characters = []"))
f("ir_ch_conj_helper", I, Z, None,
  ("            conj_sub_irreps = []\n            for j in range(p):\n                conj_sub_irrep = []\n                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n                    conj_sub_irrep.append(factor_system[s, rm[j]] / factor_system[rm[j], sj] * sub_irrep[subgroup_remapping[sj]])\n                conj_sub_irreps.append(np.array(conj_sub_irrep))\n",
   "            def conjugate(j):\n                out = []\n                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n                    out.append(sub_irrep[subgroup_remapping[sj]] * factor_system[s, rm[j]] / factor_system[rm[j], sj])\n                return np.array(out)\n            conj_sub_irreps = [conjugate(j) for j in range(p)]\n"))
f("ir_ch_prod", I, Z, None,
  ("omega = 1 / nroot(np.prod([factor_system[r, rm[m]] for m in range(1, p)]), p)", "factor_product = 1\n                for m in range(1, p):\n                    factor_product = factor_product * factor_system[r, rm[m]]\n                omega = 1 / nroot(factor_product, p)"))
f("ir_ch_block_idx", I, Z, None,
  ("next_irrep[group_remapping[idx], i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] =", "rows = slice(i * dim, (i + 1) * dim)\n                            cols = slice(j * dim, (j + 1) * dim)\n                            next_irrep[group_remapping[idx], rows, cols] ="))
f("ir_sm_hoist", I, "enumerate_small_representations", None,
  ("irreps = []\n    for rep in little_cogroup_irreps:\n        phases = np.array([np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations])\n        irreps.append(rep * phases[:, None, None])", "phases = np.exp(-2j * np.pi * np.dot(little_translations, kpoint))\n    irreps = [rep * phases[:, None, None] for rep in little_cogroup_irreps]"))
f("ir_sm_selfconj", I, "enumerate_small_representations", None,
  ("two_kpoint = 2 * np.asarray(kpoint)\n    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)", "k2 = np.array(kpoint) * 2\n    residual = k2 - np.round(k2)\n    is_self_conjugate_kpoint = np.allclose(residual, np.zeros(3))"))
f("ir_sm_indloop", I, "enumerate_small_representations", None,
  ("indicators = [frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0 for irrep in irreps]\n        return (irreps, indicators)", "indicators = []\n        for irrep in irreps:\n            if is_self_conjugate_kpoint:\n                indicators.append(frobenius_schur_indicator(irrep))\n            else:\n                indicators.append(0)\n        return irreps, indicators"))
f("ir_sm_indall", I, "enumerate_small_representations", None,
  ("indicators = [frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0 for irrep in irreps]", "if is_self_conjugate_kpoint:\n            indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]\n        else:\n            indicators = [0] * len(irreps)"))
f("ir_sm_pairs", I, "enumerate_small_representations", None,
  ("        inequivalent = False\n        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))",
   "        for j, cj in enumerate(characters):\n            if not visited[j] and is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                break\n        else:\n            conjugated_pairs.append((i, i))"))
f("ir_sm_nopairs", I, "enumerate_small_representations", None,
  ("for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]", "for i, _ in conjugated_pairs:\n        irrep = irreps[i]"))
f("ir_un_dispatch", I, "enumerate_unitary_irreps", None,
  ("order = rotations.shape[0]\n    if factor_system is None:\n        factor_system = np.ones((order, order), dtype=np.complex_)", "if method not in ('Neto', 'random'):\n        raise ValueError(f'Unknown method to compute irreps: {method}')\n    order = rotations.shape[0]\n    factor_system = np.ones((order, order), dtype=np.complex_) if factor_system is None else factor_system"))
f("ir_un_real_fs", I, "enumerate_unitary_irreps", None,
  ("np.allclose(np.imag(factor_system), 0)", "np.allclose(factor_system.imag, 0)"))

# ---------------------------------------------------------------- representation.py
P = "representation.py"
f("re_reg_assign", P, "get_regular_representation", None,
  ("for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = 1", "for k in range(n):\n        reg[k, table[k], np.arange(n)] = 1"))
f("re_preg_fancy", P, "get_projective_regular_representation", None,
  ("for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = factor_system[k, j]", "for k in range(n):\n        reg[k, table[k], np.arange(n)] = factor_system[k]"))
f("re_preg_compare", P, "get_projective_regular_representation", None,
  ("reg = np.zeros((n, n, n), dtype=np.complex_)\n    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = factor_system[k, j]", "reg = np.zeros((n, n, n), dtype=np.complex_)\n    for k, row in enumerate(table):\n        for j, i in enumerate(row):\n            reg[k, i, j] = factor_system[k, j]"))
f("re_int_matmul", P, "get_intertwiner", None,
  ("np.einsum('kil,lm,kjm->ij', rep1, random, np.conj(rep2), optimize='greedy')", "np.sum(rep1 @ random @ np.conj(rep2).transpose(0, 2, 1), axis=0)"))
f("re_int_loop", P, "get_intertwiner", None,
  ("matrix = np.einsum('kil,lm,kjm->ij', rep1, random, np.conj(rep2), optimize='greedy')", "matrix = np.zeros((dim, dim), dtype=np.complex_)\n        for d1, d2 in zip(rep1, rep2):\n            matrix += d1 @ random @ np.conj(d2.T)"))
f("re_int_continue", P, "get_intertwiner", None,
  ("if not np.allclose(matrix, 0, atol=atol):\n            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix", "if np.allclose(matrix, 0, atol=atol):\n            continue\n        scale = np.linalg.det(matrix) ** (1 / dim)\n        return matrix / scale"))
f("re_char_trace", P, "get_character", None,
  ("np.einsum('ijj->i', representation, optimize='greedy').astype(np.complex_)", "np.trace(representation, axis1=1, axis2=2).astype(np.complex_)"))
f("re_char_list", P, "get_character", None,
  ("np.einsum('ijj->i', representation, optimize='greedy').astype(np.complex_)", "np.array([np.trace(matrix) for matrix in representation], dtype=np.complex_)"))
f("re_unit_all", P, "is_unitary", None,
  ("for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n    return True", "identity = np.eye(dim)\n    return all((np.allclose(m @ m.conj().T, identity) for m in representation))"))
f("re_rep_prod", P, "is_representation", None,
  ("for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True", "for i, j in product(range(order), repeat=2):\n        k = table[i, j]\n        if not np.allclose(np.matmul(rep[i], rep[j]), factor_system[i, j] * rep[k], rtol=rtol, atol=atol):\n            return False\n    return True"))
f("re_rep_all", P, "is_representation", None,
  ("for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True", "return all((np.allclose(rep[i] @ rep[j], rep[table[i, j]] * factor_system[i, j], rtol=rtol, atol=atol) for i in range(order) for j in range(order)))"))
f("re_fs_sum", P, "frobenius_schur_indicator", None,
  ("np.einsum('kij,kji->', irrep, irrep, optimize='greedy') / order", "np.sum([np.trace(d @ d) for d in irrep]) / order"))
f("re_fs_sum2", P, "frobenius_schur_indicator", None,
  ("np.einsum('kij,kji->', irrep, irrep, optimize='greedy') / order", "np.sum(irrep * np.transpose(irrep, (0, 2, 1))) / order"))
f("re_chk_phase", P, "check_spacegroup_representation", None,
  ("m12 = spinor_factor_system[idx1, idx2] * np.exp(-2j * np.pi * np.dot(kpoint, t12 - little_translations[idx])) * rep[idx]", "diff = t12 - little_translations[idx]\n            phase = np.exp(-2j * np.pi * np.dot(diff, kpoint))\n            m12 = rep[idx] * phase * spinor_factor_system[idx1, idx2]"))
f("re_chk_dict", P, "check_spacegroup_representation", None,
  ("little_rotations_int = [ndarray2d_to_integer_tuple(rotation) for rotation in little_rotations]", "index_of = {ndarray2d_to_integer_tuple(r): i for i, r in enumerate(little_rotations)}"),
  ("little_rotations_int.index(ndarray2d_to_integer_tuple(r12))", "index_of[ndarray2d_to_integer_tuple(r12)]"))
f("re_dir_einsum", P, "get_direct_product", None,
  ("(rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(order, dim1 * dim2, dim1 * dim2)", "np.einsum('kij,klm->kiljm', rep1, rep2).reshape(order, dim1 * dim2, dim1 * dim2)"))
f("re_dir_kron", P, "get_direct_product", None,
  ("(rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(order, dim1 * dim2, dim1 * dim2)", "np.array([np.kron(d1, d2) for d1, d2 in zip(rep1, rep2)])"))
f("re_proj_const", P, "project_to_irrep", None,
  ("dim_irrep / order * np.einsum('ki,km->im', np.conj(irrep[:, :, j]), representation[:, :, n], optimize='greedy')", "np.einsum('ki,km->im', irrep[:, :, j].conj(), representation[:, :, n]) * dim_irrep / order"))
f("re_proj_matmul", P, "project_to_irrep", None,
  ("np.einsum('ki,km->im', np.conj(irrep[:, :, j]), representation[:, :, n], optimize='greedy')", "(np.conj(irrep[:, :, j]).T @ representation[:, :, n])"))
f("re_proj_count", P, "project_to_irrep", None,
  ("        count = 0\n", ""), ("                count += 1\n        return (basis, count)", "        return (basis, len(basis))"))
f("re_proj_prod", P, "project_to_irrep", None,
  ("for n in range(dim):\n            for j in range(dim_irrep):\n", "for n, j in product(range(dim), range(dim_irrep)):\n            if True:\n"))
f("re_proj_vstack", P, "project_to_irrep", None,
  ("np.concatenate(np.array(basis), axis=0)", "np.vstack(basis)"))
f("re_proj_if", P, "project_to_irrep", None,
  ("if len(basis) > 0 and grassmann_distance(basis_nj, np.concatenate(np.array(basis), axis=0)) < 0.5:\n                    continue", "if basis:\n                    if grassmann_distance(basis_nj, np.concatenate(np.array(basis), axis=0)) < 0.5:\n                        continue"))
f("re_proj_clip", P, "project_to_irrep", None,
  ("np.clip(atol, atol_lb, atol_ub)", "min(max(atol, atol_lb), atol_ub)"))

# ---------------------------------------------------------------- tensor.py
T = "tensor.py"
f("te_comp", T, "get_symmetry_adapted_tensors", None,
  ("all_vector_basis = []\n    for irrep in irreps:\n        list_basis = project_to_irrep(rep, irrep, atol=atol)\n        for basis in list_basis:\n            all_vector_basis.append((basis, irrep))\n", "all_vector_basis = [(basis, irrep) for irrep in irreps for basis in project_to_irrep(rep, irrep, atol=atol)]\n"))
f("te_loops", T, "get_symmetry_adapted_tensors", None,
  ("for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(all_tensor_basis, all_vector_basis):\n", "for ti, vi in product(all_tensor_basis, all_vector_basis):\n            tensor_basis, tensor_irrep = ti\n            vector_basis, vector_irrep = vi\n"))
f("te_ones", T, "get_symmetry_adapted_tensors", None, ("np.ones((order,))", "np.ones(rotations.shape[0])"))
f("te_invar", T, "get_symmetry_adapted_tensors", None,
  ("if irrep.shape[1] > 1:\n            continue\n        character = get_character(irrep)\n        if is_equivalent_irrep(character, identity_character):\n            tensors.append(basis[0, ...])", "if irrep.shape[1] == 1 and is_equivalent_irrep(get_character(irrep), identity_character):\n            tensors.append(basis[0])"))
f("te_einsum", T, "get_symmetry_adapted_tensors", None,
  ("coeff = coeff.reshape(dim_irrep, dim_tensor, dim_vector)", "coeff = np.reshape(coeff, (dim_irrep, dim_tensor, dim_vector))"))
f("te_tdot", T, "get_symmetry_adapted_tensors", None,
  ("tensor_irrep.shape[1]", "tensor_irrep.shape[-1]"), ("vector_irrep.shape[1]", "vector_irrep.shape[2]"))
f("te_sym_loop", T, "apply_intrinsic_symmetry", None,
  ("sym_tensor = np.zeros_like(coeff)\n        coeff = coeff / np.linalg.norm(coeff)\n        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "coeff = coeff / np.linalg.norm(coeff)\n        sym_tensor = sum((np.transpose(coeff, perm) for perm in perms))\n"))
f("te_sym_ndim", T, "apply_intrinsic_symmetry", None, ("len(coeff.shape)", "coeff.ndim"), ("list(permutations(range(rank)))", "permutations(range(rank))"))
f("te_sym_flat", T, "apply_intrinsic_symmetry", None,
  ("if len(list_sym_basis) > 0 and grassmann_distance(sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)) < 0.5:\n            continue\n        list_sym_basis.append(sym_tensor.reshape(1, -1))", "flat = sym_tensor.reshape(1, -1)\n        if list_sym_basis:\n            known = np.concatenate(list_sym_basis, axis=0)\n            if grassmann_distance(flat, known) < 0.5:\n                continue\n        list_sym_basis.append(flat)"))

# ---------------------------------------------------------------- core.py
K = "core.py"
f("cr_recip_simplify", K, "get_spacegroup_irreps", None,
  ("kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)", "kpoint_conv = kpoint @ reciprocal_lattice @ lattice.T"))
f("cr_recip_solve", K, "get_spacegroup_irreps", None,
  ("dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)", "dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        kpoint_conv = kpoint\n    else:\n        kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)"))
f("cr_prim_args", K, "get_spacegroup_irreps_from_primitive_symmetry", None,
  ("irreps, indicators = enumerate_small_representations(", "irreps, _ = enumerate_small_representations("))
f("cr_prim_any", K, "get_spacegroup_irreps_from_primitive_symmetry", '''
def _check_primitive(rotations, translations, rtol, atol):
    identity = np.eye(3)
    for rotation, translation in zip(rotations, translations):
        is_identity = np.allclose(rotation, identity, rtol=rtol, atol=atol)
        if is_identity and not np.allclose(translation, 0, atol=atol):
            raise ValueError("Specify symmetry operations in primitive cell!")


HEADER
    _check_primitive(rotations, translations, rtol, atol)
    little_rotations, little_translations, mapping_little_group = get_little_group(
        rotations, translations, kpoint, atol=atol
    )
    irreps = enumerate_small_representations(
        little_rotations,
        little_translations,
        kpoint,
        real=real,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )[0]
    return irreps, mapping_little_group
''')
f("cr_pg_pos", K, "get_crystallographic_pointgroup_irreps_from_symmetry", None,
  ("factor_system=None, ", ""))
f("cr_pg_idx", K, "get_crystallographic_pointgroup_irreps_from_symmetry", None,
  ("irreps, _ = enumerate_unitary_irreps(", "result = enumerate_unitary_irreps("), ("    return irreps", "    return result[0]"))
f("cr_sp_none", K, "get_spacegroup_spinor_irreps", None,
  ("time_reversals = None if magmoms is None else dataset['time_reversals']", "if magmoms is None:\n        time_reversals = None\n    else:\n        time_reversals = dataset['time_reversals']"))
f("cr_sp_lattice", K, "get_spacegroup_spinor_irreps", None,
  ("prim_lattice = to_primitive.T @ lattice", "prim_lattice = np.dot(np.transpose(to_primitive), lattice)"))
f("cr_sp_tr_loop", K, "get_spacegroup_spinor_irreps", None,
  ("uniq_prim_time_reversals[mapping_to_prim] = time_reversals", "for idx, time_reversal in zip(mapping_to_prim, time_reversals):\n            uniq_prim_time_reversals[idx] = time_reversal"))
f("cr_to_prim", K, "get_spacegroup_irreps", None,
  ("to_primitive = np.linalg.inv(dataset['transformation_matrix']) @ get_primitive_transformation_matrix(dataset['hall_number'])", "hall_number = dataset['hall_number']\n    std_to_primitive = get_primitive_transformation_matrix(hall_number)\n    to_primitive = np.linalg.solve(dataset['transformation_matrix'], std_to_primitive)"))
if __name__ == "__main__":
    M.main(R, sys.argv[1:])
