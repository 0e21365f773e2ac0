"""Evaluation aid (not a check): sixth round of behaviour-preserving rewrites - helpers extracted across functions, statements reordered, loops rewritten."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
import re
R = []


def f(id, file, name, code, *subs):
    """Textual substitutions in the file (old text matched up to blank lines); order matters."""
    whole = s = open(M.SRC + "/" + file).read()
    for o, n in subs:
        lines = [x for x in o.split("\n") if x.strip()]
        rx = r"\n(?:[ ]*\n)*".join(re.escape(x) for x in lines) + (r"\n" if o.endswith("\n") else "")
        i0 = s.index("def " + name + "(")
        m = re.search(rx, s[i0 - 1:])
        if not m:
            print("NOMATCH", id, o[:70])
            return
        s = s[:i0 - 1] + s[i0 - 1:][: m.start()] + n + s[i0 - 1:][m.end():]
    R.append((id, file, ((whole, s),)))


G, I, P, K, S, C, T, X, U, PG = "group.py", "irreps.py", "representation.py", "core.py", "spinor.py", "corep.py", "transform.py", "tensor.py", "utils.py", "pointgroup.py"

# ---------------------------------------------------------------- irreps
f("y_phase_helper", I, "enumerate_small_representations", None,
  ("    irreps = []\n    for rep in little_cogroup_irreps:\n        phases = np.array(\n            [\n                np.exp(-2j * np.pi * np.dot(kpoint, translation))\n                for translation in little_translations\n            ]\n        )\n        irreps.append(rep * phases[:, None, None])\n",
   "    phases = _translation_phases(kpoint, little_translations)[:, None, None]\n    irreps = [rep * phases for rep in little_cogroup_irreps]\n"),
  ("def enumerate_small_representations(", "def _translation_phases(kpoint, translations):\n    phases = []\n    for translation in translations:\n        phases.append(np.exp(-2j * np.pi * np.dot(kpoint, translation)))\n    return np.array(phases)\n\n\ndef enumerate_small_representations("))
f("y_pair_helper", I, "enumerate_small_representations", None,
  ("    conjugated_pairs = []\n    visited = [False for _ in range(len(irreps))]\n    characters = [get_character(irrep) for irrep in irreps]\n    for i, ci in enumerate(characters):\n        if visited[i]:\n            continue\n        visited[i] = True\n        inequivalent = False\n        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))\n",
   "    conjugated_pairs = _pair_conjugates(irreps)\n"),
  ("def enumerate_small_representations(", "def _pair_conjugates(irreps):\n    characters = [get_character(irrep) for irrep in irreps]\n    visited = [False] * len(irreps)\n    pairs = []\n    for i, ci in enumerate(characters):\n        if visited[i]:\n            continue\n        visited[i] = True\n        partner = i\n        for j, cj in enumerate(characters):\n            if not visited[j] and is_equivalent_irrep(np.conj(ci), cj):\n                visited[j] = True\n                partner = j\n                break\n        pairs.append((i, partner))\n    return pairs\n\n\ndef enumerate_small_representations("))
f("y_pair_both", I, "enumerate_small_representations", None,
  ("    conjugated_pairs = []\n    visited = [False for _ in range(len(irreps))]\n    characters = [get_character(irrep) for irrep in irreps]\n    for i, ci in enumerate(characters):\n        if visited[i]:\n            continue\n        visited[i] = True\n        inequivalent = False\n        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                conjugated_pairs.append((i, j))\n                visited[j] = True\n                inequivalent = True\n                break\n        if not inequivalent:\n            conjugated_pairs.append((i, i))\n\n    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n",
   "    real_irreps = []\n    indicators = []\n    visited = [False for _ in range(len(irreps))]\n    characters = [get_character(irrep) for irrep in irreps]\n    for i, ci in enumerate(characters):\n        if visited[i]:\n            continue\n        visited[i] = True\n        for j, cj in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(np.conj(ci), cj):\n                visited[j] = True\n                break\n        irrep = irreps[i]\n"))
f("y_self_conj", I, "enumerate_small_representations", None,
  ("    two_kpoint = 2 * np.asarray(kpoint)\n    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)\n    if not real:\n        indicators = [\n            frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0 for irrep in irreps\n        ]\n        return irreps, indicators\n",
   "    doubled = np.asarray(kpoint) + np.asarray(kpoint)\n    is_self_conjugate_kpoint = np.allclose(doubled - np.rint(doubled), 0)\n    if not real:\n        if is_self_conjugate_kpoint:\n            return irreps, [frobenius_schur_indicator(irrep) for irrep in irreps]\n        return irreps, [0 for _ in irreps]\n"))
f("y_tail_map", I, "enumerate_small_representations", None,
  ("    real_irreps = []\n    indicators = []\n    for conj_pair in conjugated_pairs:\n        irrep = irreps[conj_pair[0]]\n        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0\n        real_irrep = get_physically_irrep(\n            irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations\n        )\n        real_irrep = purify_real_irrep_value(real_irrep, atol=atol)\n        real_irreps.append(real_irrep)\n        indicators.append(indicator)\n",
   "    representatives = [irreps[i] for i, _ in conjugated_pairs]\n    indicators = [\n        frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0\n        for irrep in representatives\n    ]\n    real_irreps = [\n        purify_real_irrep_value(\n            get_physically_irrep(\n                irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations\n            ),\n            atol=atol,\n        )\n        for irrep, indicator in zip(representatives, indicators)\n    ]\n"))
f("y_enum_branches", I, "enumerate_unitary_irreps", None,
  ("    if method == \"Neto\":\n        table = get_cayley_table(rotations)\n        solvable_chain_generators = get_pointgroup_chain_generators(rotations)\n", "    if method not in (\"Neto\", \"random\"):\n        raise ValueError(f\"Unknown method to compute irreps: {method}\")\n\n    if method == \"Neto\":\n        solvable_chain_generators = get_pointgroup_chain_generators(rotations)\n        table = get_cayley_table(rotations)\n"),
  ("    elif method == \"random\":\n        reg", "    else:\n        reg"),
  ("    else:\n        raise ValueError(f\"Unknown method to compute irreps: {method}\")\n\n    # Purify", "\n    # Purify"))
f("y_enum_purify_index", I, "enumerate_unitary_irreps", None,
  ("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n", "    irreps = [purify_irrep_value(irrep, atol=atol) for irrep in irreps]\n"))
f("y_enum_real_fs", I, "enumerate_unitary_irreps", None,
  ("    is_real_factor_system = np.allclose(np.imag(factor_system), 0)\n", "    imag_part = np.imag(factor_system)\n    is_real_factor_system = np.allclose(imag_part, np.zeros_like(imag_part))\n"))
f("y_reg_argmax", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("    for m, i in product(range(n), repeat=2):\n        idx = np.nonzero(reg[m, i, :])[0]\n        reg_nonzero[m, i] = reg[m, i, idx]\n        lookup[m, i] = idx\n", "    for m in range(n):\n        for i in range(n):\n            row = reg[m, i]\n            idx = np.nonzero(row)[0]\n            lookup[m, i] = idx\n            reg_nonzero[m, i] = row[idx]\n"))
f("y_reg_reorder_loops", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("        meshi, meshj = np.meshgrid(range(n), range(n))\n", ""),
  ("    rng = np.random.default_rng(seed=0)\n", "    meshi, meshj = np.meshgrid(range(n), range(n))\n    rng = np.random.default_rng(seed=0)\n"),
  ("        for m in range(n):\n            hermite_random_reordered[m] = hermite_random[lookup[m, meshi], lookup[m, meshj]]\n", "        for m, row in enumerate(lookup):\n            hermite_random_reordered[m] = hermite_random[row[meshi], row[meshj]]\n"))
f("y_reg_dims", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("        if np.sum([irrep.shape[1] ** 2 for irrep in irreps]) == n:\n            return irreps\n", "        dims = [irrep.shape[1] for irrep in irreps]\n        if sum(dim * dim for dim in dims) != n:\n            continue\n        return irreps\n"))
f("y_reg_hermite_helper", I, "enumerate_unitary_irreps_from_regular_representation", None,
  ("        hermite_random = rng.random((n, n)) + rng.random((n, n)) * 1j\n        hermite_random += np.conj(hermite_random.T)\n", "        hermite_random = _random_hermite(rng, n)\n"),
  ("def enumerate_unitary_irreps_from_regular_representation(", "def _random_hermite(rng, dim):\n    real_part = rng.random((dim, dim))\n    imag_part = rng.random((dim, dim))\n    matrix = real_part + imag_part * 1j\n    return matrix + matrix.conj().T\n\n\ndef enumerate_unitary_irreps_from_regular_representation("))
f("y_dec_count", I, "decompose_representation", None,
  ("        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:\n            return irreps\n", "        total_dim = 0\n        for irrep in irreps:\n            total_dim += irrep.shape[1]\n        if total_dim == dim0:\n            return irreps\n"))
f("y_dec_matrix", I, "decompose_representation", None,
  ("        matrix = np.einsum(\n            \"mik,kl,mjl->ij\",\n            representation,\n            hermite_random,\n            np.conj(representation),\n            optimize=\"greedy\",\n        )\n", "        matrix = np.sum(\n            representation @ hermite_random @ np.conj(np.transpose(representation, (0, 2, 1))), axis=0\n        )\n"))
f("y_mat_spaces", I, "_get_irreps_from_matrix", None,
  ("        is_new_space = True\n        for i, (eigval2, _) in enumerate(eigenspaces):\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                eigenspaces[i][1].append(eigvec)\n                is_new_space = False\n                break\n        if is_new_space:\n            eigenspaces.append((eigval, [eigvec]))\n",
   "        for eigval2, members in eigenspaces:\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                members.append(eigvec)\n                break\n        else:\n            eigenspaces.append((eigval, [eigvec]))\n"))
f("y_mat_unique_any", I, "_get_irreps_from_matrix", None,
  ("        is_unique = True\n        for character2 in characters:\n            product = np.around(np.sum(np.conj(character) * character2))\n            if np.isclose(product, order, rtol=rtol):\n                is_unique = False\n                break\n        if not is_unique:\n            continue\n",
   "        if any(\n            np.isclose(np.around(np.vdot(character, character2)), order, rtol=rtol)\n            for character2 in characters\n        ):\n            continue\n"))
f("y_mat_irrep_matmul", I, "_get_irreps_from_matrix", None,
  ("        irrep = np.einsum(\n            \"li,klm,mj->kij\", np.conj(transformation), reg, transformation, optimize=\"greedy\"\n        )\n        irreps.append(irrep)\n        characters.append(character)\n",
   "        irreps.append(np.conj(transformation).T @ reg @ transformation)\n        characters.append(character)\n"))
f("y_mat_sort_zip", I, "_get_irreps_from_matrix", None,
  ("    argidx = sorted(range(len(irreps)), key=lambda i: (irreps[i].shape[1], -np.sum(characters[i])))\n    sorted_irreps = [irreps[i] for i in argidx]\n    return sorted_irreps\n",
   "    def sort_key(idx):\n        dim = irreps[idx].shape[1]\n        return dim, -np.sum(characters[idx])\n\n    return [irreps[idx] for idx in sorted(range(len(irreps)), key=sort_key)]\n"))
f("y_chain_powers", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        rm = [identity]\n        rinvm = [identity]\n        rinv = get_inverse_index(table, r)\n        for m in range(1, p):\n            rm.append(table[rm[m - 1], r])\n            rinvm.append(table[rinvm[m - 1], rinv])\n",
   "        rinv = get_inverse_index(table, r)\n        rm = _powers(table, identity, r, p)\n        rinvm = _powers(table, identity, rinv, p)\n"),
  ("def enumerate_unitary_irreps_from_solvable_group_chain(", "def _powers(table, identity, element, num):\n    powers = [identity]\n    for _ in range(num - 1):\n        powers.append(table[powers[-1], element])\n    return powers\n\n\ndef enumerate_unitary_irreps_from_solvable_group_chain("))
f("y_chain_maps", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        subgroup_remapping = {}  # GroupIdx -> int for `subgroup`\n        for i, si in enumerate(subgroup):\n            subgroup_remapping[si] = i\n        group_remapping = {}  # GroupIdx -> int for `group`\n        for i, gi in enumerate(group):\n            group_remapping[gi] = i\n",
   "        subgroup_remapping = dict(zip(subgroup, range(len(subgroup))))\n        group_remapping = dict(zip(group, range(len(group))))\n"))
f("y_chain_group", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        subgroup = group[:]\n        group = []\n        for m in range(p):\n            group.extend([table[rm[m], s] for s in subgroup])\n        group = sorted(list(set(group)))\n",
   "        subgroup = list(group)\n        group = sorted({table[rmm, s] for rmm in rm for s in subgroup})\n"))
f("y_chain_conj_helper", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("            conj_sub_irreps = []\n            for j in range(p):\n                conj_sub_irrep = []\n                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n                    conj_sub_irrep.append(\n                        factor_system[s, rm[j]]\n                        / factor_system[rm[j], sj]\n                        * sub_irrep[subgroup_remapping[sj]]\n                    )\n                conj_sub_irreps.append(np.array(conj_sub_irrep))\n",
   "            def conjugate(j):\n                matrices = []\n                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n                    multiplier = factor_system[s, rm[j]] / factor_system[rm[j], sj]\n                    matrices.append(multiplier * sub_irrep[subgroup_remapping[sj]])\n                return np.array(matrices)\n\n            conj_sub_irreps = [conjugate(j) for j in range(p)]\n"))
f("y_chain_scale", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                scale = intertwiner.copy()\n                for _ in range(p - 1):\n                    scale = np.dot(intertwiner, scale)\n                intertwiner /= scale[0, 0] ** (1 / p)\n",
   "                power = intertwiner\n                for _ in range(1, p):\n                    power = intertwiner @ power\n                intertwiner = intertwiner / power[0, 0] ** (1 / p)\n"))
f("y_chain_delta", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                    for m in range(1, p):\n                        # D(r^m) = D(r) @ D(r^{m-1}) / mu(r, r^{m-1})\n                        delta_rm.append(delta_r @ delta_rm[m - 1] / factor_system[r, rm[m - 1]])\n",
   "                    for m in range(p - 1):\n                        # D(r^{m+1}) = D(r) @ D(r^m) / mu(r, r^m)\n                        delta_rm.append(delta_r @ delta_rm[m] / factor_system[r, rm[m]])\n"))
f("y_chain_uniq_any", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("        irreps.clear()\n        sub_characters = []  # type: ignore\n        for sub_irrep in next_sub_irreps:\n            # Skip duplicated irrep\n            character = get_character(sub_irrep)\n            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n                continue\n            irreps.append(sub_irrep)\n            sub_characters.append(character)\n",
   "        irreps = []\n        sub_characters = []  # type: ignore\n        for sub_irrep in next_sub_irreps:\n            character = get_character(sub_irrep)\n            is_duplicated = False\n            for c in sub_characters:\n                if is_equivalent_irrep(character, c):\n                    is_duplicated = True\n                    break\n            if not is_duplicated:\n                irreps.append(sub_irrep)\n                sub_characters.append(character)\n"))
f("y_chain_block", I, "enumerate_unitary_irreps_from_solvable_group_chain", None,
  ("                            next_irrep[\n                                group_remapping[idx],\n                                i * dim : (i + 1) * dim,\n                                j * dim : (j + 1) * dim,\n                            ] = (\n                                factor_system[idx, rm[j]]\n                                / factor_system[rm[i], sj]\n                                * sub_irrep[subgroup_remapping[sj]]\n                            )\n",
   "                            rows = slice(i * dim, (i + 1) * dim)\n                            cols = slice(j * dim, (j + 1) * dim)\n                            multiplier = factor_system[idx, rm[j]] / factor_system[rm[i], sj]\n                            next_irrep[group_remapping[idx], rows, cols] = (\n                                multiplier * sub_irrep[subgroup_remapping[sj]]\n                            )\n"))
f("y_phys_block", I, "get_physically_irrep", None,
  ("        real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        # [ [Re D(g),  Im D(g)]\n        #   [-Im D(g), Re D(g)] ]\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n",
   "        re, im = np.real(irrep), np.imag(irrep)\n        # [ [Re D(g),  Im D(g)]\n        #   [-Im D(g), Re D(g)] ]\n        real_irrep = np.block([[re, im], [-im, re]])\n"))
f("y_phys_early", I, "get_physically_irrep", None,
  ("        eigvals = np.diag(S.T @ U @ S)\n        # Square root of intertwiner\n        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T\n        real_irrep = np.real(np.einsum(\"il,klm,mj->kij\", np.conj(T), irrep, T, optimize=\"greedy\"))\n",
   "        diagonalized = S.T @ U @ S\n        roots = np.array([nroot(diagonalized[i, i], 2) for i in range(dim)])\n        # Square root of intertwiner\n        T = (S * roots) @ S.T\n        real_irrep = np.real(np.conj(T) @ irrep @ T)\n"))
f("y_equiv_vdot", I, "is_equivalent_irrep", None,
  ("    if np.around(np.sum(np.conj(character1) * character2)) == order:\n        return True\n    else:\n        return False\n", "    inner_product = np.vdot(character1, character2)\n    return bool(np.around(inner_product) == order)\n"))
f("y_purify_mask", I, "purify_irrep_value", None,
  ("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n    return irrep\n", "    for v in possible_values:\n        distance = np.abs(irrep - v)\n        is_close = distance < atol\n        irrep[is_close] = v\n    return irrep\n"))
# ---------------------------------------------------------------- group
f("y_table_mult_helper", G, "get_cayley_table", None,
  ("            rk = ri @ rj\n            trk = tri != trj\n            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n", "            k = operations_list.index(_multiply((ri, tri), (rj, trj)))\n"),
  ("def get_cayley_table(", "def _multiply(op1, op2):\n    (rot1, tr1), (rot2, tr2) = op1, op2\n    return ndarray2d_to_integer_tuple(rot1 @ rot2), tr1 != tr2\n\n\ndef get_cayley_table("))
f("y_table_dict", G, "get_cayley_table", None,
  ("    operations_list = [\n        (ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)\n    ]\n", "    operations_list = []\n    for idx in range(order):\n        operations_list.append((ndarray2d_to_integer_tuple(rotations[idx]), time_reversals[idx]))\n"),
  ("    table = [[-1 for _ in range(order)] for _ in range(order)]\n", "    table = -np.ones((order, order), dtype=np.int_)\n"),
  ("            if table[i][j] != -1:\n                raise ValueError(\"Should specify a matrix group.\")\n            table[i][j] = k\n    return np.array(table)\n", "            if table[i, j] != -1:\n                raise ValueError(\"Should specify a matrix group.\")\n            table[i, j] = k\n    return table\n"))
f("y_identity_next", G, "get_identity_index", None,
  ("    for i in range(order):\n        if np.all(table[i, :] == np.arange(order)):\n            return i\n", "    identity_row = np.arange(order)\n    for i, row in enumerate(table):\n        if np.array_equal(row, identity_row):\n            return i\n"))
f("y_inverse_where", G, "get_inverse_index", None,
  ("    order = table.shape[0]\n    id_idx = get_identity_index(table)\n    for i in range(order):\n        if table[idx, i] == id_idx:\n            return i\n", "    id_idx = get_identity_index(table)\n    for i, product_idx in enumerate(table[idx]):\n        if product_idx == id_idx:\n            return i\n"))
f("y_order_rename", G, "get_order", None,
  ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret\n", "    power = idx\n    exponent = 1\n    while True:\n        if power == id_idx:\n            return exponent\n        power = table[power, idx]\n        exponent += 1\n"))
f("y_mg_all", G, "is_matrix_group", None,
  ("    order = rotations.shape[0]\n    for i in range(order):\n        if set(table[i]) != set(range(order)):\n            return False\n    return True\n", "    elements = set(range(rotations.shape[0]))\n    return all(set(row) == elements for row in table)\n"))
f("y_mg_len", G, "is_matrix_group", None,
  ("    for i in range(order):\n        if set(table[i]) != set(range(order)):\n            return False\n    return True\n", "    for row in table:\n        if len(set(row)) != order:\n            return False\n    return True\n"))
f("y_fs_matrix", G, "get_factor_system_from_little_group", None,
  ("    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual in enumerate(residuals):\n        for j, translation in enumerate(little_translations):\n            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n    return factor_system\n", "    exponents = residuals @ np.transpose(little_translations)\n    return np.exp(-2j * np.pi * exponents)\n"))
f("y_fs_branch", G, "get_factor_system_from_little_group", None,
  ("        residuals[i] = rotation.T @ kpoint - kpoint\n        if little_time_reversals is not None and little_time_reversals[i] == 1:\n            # Anti-linear operation conjugates the phase of the second operation\n            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)\n", "        rotated = rotation.T @ kpoint\n        anti_linear = little_time_reversals is not None and little_time_reversals[i] == 1\n        # Anti-linear operation conjugates the phase of the second operation\n        residuals[i] = rotated + np.asarray(kpoint) if anti_linear else rotated - kpoint\n"))
f("y_little_mask", G, "get_little_group", None,
  ("        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rotations.append(rotation)\n        little_translations.append(translation)\n        mapping_little_group.append(i)\n", "        if np.allclose(residual, 0, atol=atol):\n            mapping_little_group.append(i)\n            little_rotations.append(rotation)\n            little_translations.append(translation)\n"))
f("y_little_select", G, "get_little_group", None,
  ("    little_rotations = []\n    little_translations = []\n    mapping_little_group = []\n", "    mapping_little_group = []\n"),
  ("        little_rotations.append(rotation)\n        little_translations.append(translation)\n        mapping_little_group.append(i)\n", "        mapping_little_group.append(i)\n"),
  ("        np.array(little_rotations),\n        np.array(little_translations),\n        np.array(mapping_little_group),\n", "        np.array([rotations[i] for i in mapping_little_group]),\n        np.array([translations[i] for i in mapping_little_group]),\n        np.array(mapping_little_group),\n"))
f("y_little_sign", G, "get_little_group", None,
  ("        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and time_reversals[i] == 1:\n            # Time reversal inverts kpoint\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n        residual", "        sign = 1\n        if time_reversals is not None and time_reversals[i] == 1:\n            # Time reversal inverts kpoint\n            sign = -1\n        residual = rotation.T @ kpoint - sign * np.asarray(kpoint)\n        residual"))
f("y_cocycle_table", G, "check_cocycle_condition", None,
  ("    for i, j, k in product(range(len(rotations)), repeat=3):\n        jk = rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))\n        ij = rotations_int.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))\n        if not np.isclose(\n            factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]\n        ):\n            return False\n    return True\n",
   "    for i, ri in enumerate(rotations):\n        for j, rj in enumerate(rotations):\n            ij = rotations_int.index(ndarray2d_to_integer_tuple(ri @ rj))\n            for k, rk in enumerate(rotations):\n                jk = rotations_int.index(ndarray2d_to_integer_tuple(rj @ rk))\n                lhs = factor_system[i, jk] * factor_system[j, k]\n                rhs = factor_system[ij, k] * factor_system[i, j]\n                if not np.isclose(lhs, rhs):\n                    return False\n    return True\n"))
f("y_msg_find", G, "decompose_by_maximal_space_subgroup", None,
  ("    conjugator_rotation = None\n    conjugator_translation = None\n    a0_idx = -1\n    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):\n        if tr == 0:\n            continue\n        conjugator_rotation = rot.copy()\n        conjugator_translation = trans.copy()\n        a0_idx = i\n        break\n", "    a0_idx = next(i for i, tr in enumerate(time_reversals) if tr != 0)\n    conjugator_rotation = rotations[a0_idx]\n    conjugator_translation = translations[a0_idx]\n"))
f("y_msg_find2", G, "decompose_by_maximal_space_subgroup", None,
  ("    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):\n        if tr == 0:\n            continue\n        conjugator_rotation = rot.copy()\n        conjugator_translation = trans.copy()\n        a0_idx = i\n        break\n", "    for i in range(len(rotations)):\n        if time_reversals[i] != 0:\n            a0_idx = i\n            conjugator_rotation = rotations[i].copy()\n            conjugator_translation = translations[i].copy()\n            break\n"))
f("y_msg_xsg", G, "decompose_by_maximal_space_subgroup", None,
  ("    xsg_indices: list[int] = list(np.arange(order)[time_reversals == 0])\n", "    xsg_indices = [i for i in range(order) if time_reversals[i] == 0]\n"))
f("y_msg_match", G, "decompose_by_maximal_space_subgroup", None,
  ("            if time_reversals[j] == 0:\n                continue\n            if not np.allclose(new_rot, rotations[j]):\n                continue\n            diff = np.remainder(new_trans - translations[j], 1)\n            diff -= np.rint(diff)\n            if np.allclose(diff, 0):\n                time_reversal_indices.append(j)\n                break\n", "            if time_reversals[j] == 0 or not np.allclose(new_rot, rotations[j]):\n                continue\n            diff = new_trans - translations[j]\n            if np.allclose(diff - np.rint(diff), 0):\n                time_reversal_indices.append(j)\n                break\n"))
# ---------------------------------------------------------------- representation
f("y_reg_delegate", P, "get_regular_representation", None,
  ("    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = 1\n    return reg\n\n\ndef get_projective", "    for k in range(n):\n        for j, kj in enumerate(table[k]):\n            reg[k, kj, j] = 1\n    return reg\n\n\ndef get_projective"))
f("y_reg_fancy", P, "get_projective_regular_representation", None,
  ("    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = factor_system[k, j]\n    return reg\n", "    for k in range(n):\n        reg[k, table[k], np.arange(n)] = factor_system[k]\n    return reg\n"))
f("y_inter_early", P, "get_intertwiner", None,
  ("        if not np.allclose(matrix, 0, atol=atol):\n            # Scale such that determinant is unity\n            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix\n", "        if np.allclose(matrix, 0, atol=atol):\n            continue\n        determinant = np.linalg.det(matrix)\n        # Scale such that determinant is unity\n        return matrix / determinant ** (1 / dim)\n"))
f("y_inter_sum", P, "get_intertwiner", None,
  ("        matrix = np.einsum(\"kil,lm,kjm->ij\", rep1, random, np.conj(rep2), optimize=\"greedy\")\n", "        matrix = np.zeros((dim, dim), dtype=np.complex_)\n        for m1, m2 in zip(rep1, rep2):\n            matrix += m1 @ random @ np.conj(m2.T)\n"))
f("y_proj_module_level", P, "project_to_irrep", None,
  ("    num_basis = np.around(character_sum) / order\n    num_basis = np.around(np.real(num_basis)).astype(int)\n    if num_basis == 0:\n        return []\n", "    multiplicity = np.around(character_sum) / order\n    num_basis = np.around(multiplicity.real).astype(int)\n    if num_basis == 0:\n        return []\n"))
f("y_proj_inner", P, "project_to_irrep", None,
  ("                if np.allclose(basis_nj, 0, atol=adjusted_atol):\n                    continue\n                # Normalize basis vectors s.t. they are orthonormal.\n                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n", "                if np.allclose(basis_nj, 0, atol=adjusted_atol):\n                    continue\n                # Normalize basis vectors s.t. they are orthonormal.\n                norms = np.linalg.norm(basis_nj, axis=1)\n                basis_nj = basis_nj / norms[:, None]\n"),
  ("                basis.append(basis_nj)\n                count += 1\n        return basis, count\n", "                basis.append(basis_nj)\n        return basis, len(basis)\n"))
f("y_proj_adjust", P, "project_to_irrep", None,
  ("        if count == num_basis:\n            break\n        elif count < num_basis:\n            # Tighten tolerance to compare basis vectors\n            adjusted_atol = np.sqrt(atol_lb * adjusted_atol)\n            warn(f\"Tighten tolerance for projection: {adjusted_atol}\")\n        else:\n            # Loosen tolerance to compare basis vectors\n            adjusted_atol = np.sqrt(atol_ub * adjusted_atol)\n            warn(f\"Loosen tolerance for projection: {adjusted_atol}\")\n",
   "        if count == num_basis:\n            break\n        if count > num_basis:\n            # Loosen tolerance to compare basis vectors\n            adjusted_atol = np.sqrt(atol_ub * adjusted_atol)\n            warn(f\"Loosen tolerance for projection: {adjusted_atol}\")\n        else:\n            # Tighten tolerance to compare basis vectors\n            adjusted_atol = np.sqrt(atol_lb * adjusted_atol)\n            warn(f\"Tighten tolerance for projection: {adjusted_atol}\")\n"))
f("y_unit_all", P, "is_unitary", None,
  ("    for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n    return True\n", "    identity = np.eye(dim)\n    return all(np.allclose(matrix @ matrix.conj().T, identity) for matrix in representation)\n"))
f("y_isrep_prod", P, "is_representation", None,
  ("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True\n", "    for i, j in product(range(order), repeat=2):\n        k = table[i, j]\n        expect = factor_system[i, j] * rep[k]\n        if not np.allclose(rep[i] @ rep[j], expect, rtol=rtol, atol=atol):\n            return False\n    return True\n"))
f("y_fs_trace", P, "frobenius_schur_indicator", None,
  ("    indicator = np.einsum(\"kij,kji->\", irrep, irrep, optimize=\"greedy\") / order\n    indicator = int(np.around(np.real(indicator)))\n", "    total = sum(np.trace(matrix @ matrix) for matrix in irrep)\n    indicator = int(np.around(np.real(total / order)))\n"))
f("y_check_helper", P, "check_spacegroup_representation", None,
  ("            m12 = (\n                spinor_factor_system[idx1, idx2]\n                * np.exp(-2j * np.pi * np.dot(kpoint, t12 - little_translations[idx]))\n                * rep[idx]\n            )\n            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n                return False\n", "            lattice_translation = t12 - little_translations[idx]\n            multiplier = spinor_factor_system[idx1, idx2] * np.exp(\n                -2j * np.pi * np.dot(kpoint, lattice_translation)\n            )\n            if not np.allclose(multiplier * rep[idx], m1 @ m2, rtol=rtol):\n                return False\n"))
f("y_direct_einsum", P, "get_direct_product", None,
  ("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(\n        order, dim1 * dim2, dim1 * dim2\n    )\n    return direct\n", "    direct = np.einsum(\"kij,kab->kiajb\", rep1, rep2)\n    return direct.reshape(order, dim1 * dim2, dim1 * dim2)\n"))
# ---------------------------------------------------------------- corep / spinor
f("y_corep_conj_hoist", C, "enumerate_spinor_small_corepresentations", None,
  ("    for irrep in little_cogroup_irreps:\n        conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]  # a0^-1 * xsg_indices * a0\n        conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]\n        conj_irrep = (\n            factor_system[xsg_indices, a0_idx][:, None, None]\n            / factor_system[a0_idx, conj_indices][:, None, None]\n            * np.conj(irrep[conj_indices_mapping])\n        )\n        conj_irreps.append(conj_irrep)\n",
   "    conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]  # a0^-1 * xsg_indices * a0\n    conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]\n    ratio = factor_system[xsg_indices, a0_idx] / factor_system[a0_idx, conj_indices]\n    for irrep in little_cogroup_irreps:\n        conj_irreps.append(ratio[:, None, None] * np.conj(irrep[conj_indices_mapping]))\n"))
f("y_corep_map_dict", C, "enumerate_spinor_small_corepresentations", None,
  ("    xsg_indices_mapping = {}  # xsg_indices -> [0, xsg_order)\n    for i, idx in enumerate(xsg_indices):\n        xsg_indices_mapping[idx] = i\n", "    xsg_indices_mapping = {idx: i for i, idx in enumerate(xsg_indices)}\n"),
  ("    xsg_factor_system = factor_system[xsg_indices][:, xsg_indices]\n", "    xsg_factor_system = factor_system[np.ix_(xsg_indices, xsg_indices)]\n"))
f("y_corep_tail_merge", C, "enumerate_spinor_small_corepresentations", None,
  ("            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n            corep[a0u] = (\n                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]\n                * corep_a0[None, :, :]\n                @ np.conj(corep[xsg_indices])\n            )\n", "            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[dim:, :dim] = U\n            corep_a0[:dim, dim:] = -U\n            prefactor = np.conj(factor_system[a0_idx, xsg_indices])\n            corep[a0u] = prefactor[:, None, None] * (corep_a0 @ np.conj(corep[xsg_indices]))\n"))
f("y_corep_phase_mul", C, "enumerate_spinor_small_corepresentations", None,
  ("    phases = np.array(\n        [np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations]\n    )\n", "    phases = np.exp(-2j * np.pi * np.dot(little_translations, kpoint))\n"))
f("y_corep_cfs", C, "get_corep_spinor_factor_system", None,
  ("    for i, (ui, ai) in enumerate(zip(unitary_rotations, anti_linear)):\n        for j, uj in enumerate(unitary_rotations):\n            if ai:\n                uiuj = ui @ np.conj(uj)  # ui is anti-linear\n            else:\n                uiuj = ui @ uj\n", "    for i, ui in enumerate(unitary_rotations):\n        for j, uj in enumerate(unitary_rotations):\n            # ui may be anti-linear\n            uiuj = ui @ (np.conj(uj) if anti_linear[i] else uj)\n"))
f("y_corep_anti", C, "get_corep_spinor_factor_system", None,
  ("    anti_linear = np.zeros((order,), dtype=np.bool_)\n    for i, (rotation, time_reversal) in enumerate(zip(rotations, time_reversals)):\n        unitary_rotation = get_spinor_unitary_rotation(lattice, rotation)\n        if time_reversal == 1:\n            # Anti-linear operator\n            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n            anti_linear[i] = True\n        else:\n            # Linear operator\n            unitary_rotations[i] = unitary_rotation\n            anti_linear[i] = False\n", "    anti_linear = np.zeros((order,), dtype=np.bool_)\n    for i in range(order):\n        unitary_rotation = get_spinor_unitary_rotation(lattice, rotations[i])\n        anti_linear[i] = time_reversals[i] == 1\n        if anti_linear[i]:\n            unitary_rotation = unitary_rotation @ time_reversal_matrix\n        unitary_rotations[i] = unitary_rotation\n"))
f("y_spin_fs_sign", S, "get_spinor_factor_system", None,
  ("        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2\n        spinor_factor_system[i, j] = 1 if overlap > 0 else -1\n", "        uk = unitary_rotations[k]\n        overlap = np.real(np.sum(uiuj * np.conj(uk)))  # -2 or 2\n        if overlap > 0:\n            spinor_factor_system[i, j] = 1\n        else:\n            spinor_factor_system[i, j] = -1\n"))
f("y_spin_rot_matrix", S, "get_spinor_unitary_rotation", None,
  ("    cos_half = np.cos(0.5 * theta)\n    sin_half = np.sin(0.5 * theta)\n", "    half_angle = theta / 2\n    cos_half, sin_half = np.cos(half_angle), np.sin(half_angle)\n    nx, ny, nz = cart_axis\n"),
  ("                cos_half - 1j * cart_axis[2] * sin_half,\n                sin_half * (-1j * cart_axis[0] - cart_axis[1]),\n", "                cos_half - 1j * nz * sin_half,\n                (-1j * nx - ny) * sin_half,\n"),
  ("                sin_half * (-1j * cart_axis[0] + cart_axis[1]),\n                cos_half + 1j * cart_axis[2] * sin_half,\n", "                (-1j * nx + ny) * sin_half,\n                cos_half + 1j * nz * sin_half,\n"))
f("y_spin_sign", S, "get_spinor_unitary_rotation", None,
  ("    if np.linalg.det(rotation) > 0:\n        sign = 1\n    else:\n        sign = -1\n    proper_rotation = rotation * sign\n", "    proper_rotation = rotation if np.linalg.det(rotation) > 0 else -rotation\n"))
f("y_axis_early", S, "get_rotation_angle_and_axis", None,
  ("        sin_theta = np.linalg.norm(nondiag) / 2\n        # Since sin_theta >= 0, theta in (0, pi)\n        theta = np.arctan2(sin_theta, cos_theta)\n        cart_axis = nondiag / (-2 * sin_theta)\n", "        norm = np.linalg.norm(nondiag)\n        # Since sin_theta >= 0, theta in (0, pi)\n        theta = np.arctan2(norm / 2, cos_theta)\n        cart_axis = -nondiag / norm\n"))
f("y_axis_sign_helper", S, "get_rotation_angle_and_axis", None,
  ("            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n", "            for component in cart_axis:\n                if np.isclose(component, 0):\n                    continue\n                if component < 0:\n                    cart_axis = -cart_axis\n                break\n"))
# ---------------------------------------------------------------- transform / utils / tensor / pointgroup
f("y_uniq_in", T, "unique_primitive_symmetry", None,
  ("        try:\n            j = rotations_int.index(rotation_int)\n            # Duplicated symmetry operation\n            mapping_to_primitive_symmetry[i] = j\n        except ValueError:\n            # New symmetry operation\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n            rotations_int.append(rotation_int)\n",
   "        if rotation_int not in rotations_int:\n            # New symmetry operation\n            rotations_int.append(rotation_int)\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n        mapping_to_primitive_symmetry[i] = rotations_int.index(rotation_int)\n"))
f("y_uniq_dict", T, "unique_primitive_symmetry", None,
  ("    rotations_int: list[tuple[tuple[int]]] = []\n", "    seen = {}\n"),
  ("        try:\n            j = rotations_int.index(rotation_int)\n            # Duplicated symmetry operation\n            mapping_to_primitive_symmetry[i] = j\n        except ValueError:\n            # New symmetry operation\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n            rotations_int.append(rotation_int)\n",
   "        if rotation_int not in seen:\n            # New symmetry operation\n            seen[rotation_int] = len(unique_rotations)\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n        mapping_to_primitive_symmetry[i] = seen[rotation_int]\n"))
f("y_tr_loop", T, "transform_symmetry_and_kpoint", None,
  ("    transformed_rotations = np.array(\n        [pinv @ rotation @ transformation_matrix for rotation in rotations]\n    )\n    transformed_rotations = np.around(transformed_rotations).astype(int)\n", "    conjugated = []\n    for rotation in rotations:\n        conjugated.append(pinv @ (rotation @ transformation_matrix))\n    transformed_rotations = np.around(np.array(conjugated)).astype(int)\n"))
f("y_system_items", T, "get_crystal_system", None,
  ("    for csystem, (lb, ub) in crystal_system_range.items():\n        if (lb <= hall_number) and (hall_number <= ub):\n            return csystem  # type: ignore\n", "    for csystem in crystal_system_range:\n        lower, upper = crystal_system_range[csystem]\n        if hall_number < lower or hall_number > upper:\n            continue\n        return csystem  # type: ignore\n"))
f("y_centering_idx", T, "get_centering", None,
  ("    if hall_symbol[0] == \"-\":\n        # e.g. \"-P 2c 2b\"\n        return hall_symbol[1]  # type: ignore\n    else:\n        return hall_symbol[0]  # type: ignore\n", "    position = 1 if hall_symbol[0] == \"-\" else 0\n    return hall_symbol[position]  # type: ignore\n"))
f("y_prime_all", U, "is_prime", None,
  ("    if n < 2:\n        return False\n    for i in range(2, n):\n        if n % i == 0:\n            return False\n    return True\n", "    return n >= 2 and all(n % i != 0 for i in range(2, n))\n"))
f("y_nroot_inline", U, "nroot", None,
  ("    angle = np.angle(root)\n    angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n\n    return r * np.exp(1j * angle)\n", "    angle = np.angle(root)\n    step = 2 * np.pi / n\n    angle = angle - step * np.rint(angle / step)\n    return r * np.exp(1j * angle)\n"))
f("y_gd_orth_helper", U, "grassmann_distance", None,
  ("        col_orthonormal_basis1 = np.linalg.qr(np.transpose(basis1))[0]\n        col_orthonormal_basis2 = np.linalg.qr(np.transpose(basis2))[0]\n", "        col_orthonormal_basis1, _ = np.linalg.qr(basis1.T)\n        col_orthonormal_basis2, _ = np.linalg.qr(basis2.T)\n"))
f("y_gd_sines", U, "grassmann_distance", None,
  ("        distance = np.sqrt(np.clip(1 - canonical_correlations[dim - 1] ** 2, a_min=0, a_max=None))\n", "        smallest = canonical_correlations[dim - 1]\n        distance = np.sqrt(max(1 - smallest * smallest, 0))\n"))
f("y_tensor_list", X, "get_symmetry_adapted_tensors", None,
  ("    all_vector_basis = []\n    for irrep in irreps:\n        list_basis = project_to_irrep(rep, irrep, atol=atol)\n        for basis in list_basis:\n            all_vector_basis.append((basis, irrep))\n", "    all_vector_basis = [\n        (basis, irrep) for irrep in irreps for basis in project_to_irrep(rep, irrep, atol=atol)\n    ]\n"),
  ("    tensors = []\n    for basis, irrep in all_tensor_basis:\n        if irrep.shape[1] > 1:\n            continue\n        character = get_character(irrep)\n        if is_equivalent_irrep(character, identity_character):\n            tensors.append(basis[0, ...])\n    return tensors\n", "    return [\n        basis[0]\n        for basis, irrep in all_tensor_basis\n        if irrep.shape[1] <= 1 and is_equivalent_irrep(get_character(irrep), identity_character)\n    ]\n"))
f("y_tensor_nested", X, "get_symmetry_adapted_tensors", None,
  ("        for (tensor_basis, tensor_irrep), (vector_basis, vector_irrep) in product(\n            all_tensor_basis, all_vector_basis\n        ):\n            # tensor_basis: (dim_tensor, dim(1), ..., dim(p-1))\n            # vector_basis: (dim_vector, dim)\n            dim_tensor = tensor_irrep.shape[1]\n            dim_vector = vector_irrep.shape[1]\n            direct_rep", "        for tensor_pair, vector_pair in product(all_tensor_basis, all_vector_basis):\n            # tensor_basis: (dim_tensor, dim(1), ..., dim(p-1))\n            # vector_basis: (dim_vector, dim)\n            tensor_basis, tensor_irrep = tensor_pair\n            vector_basis, vector_irrep = vector_pair\n            dim_vector = vector_irrep.shape[1]\n            dim_tensor = tensor_irrep.shape[1]\n            direct_rep"))
f("y_sym_flat", X, "apply_intrinsic_symmetry", None,
  ("        sym_tensor /= np.linalg.norm(sym_tensor)\n        # Store if independent to other symmetric tensors\n        if (\n            len(list_sym_basis) > 0\n            and grassmann_distance(\n                sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)\n            )\n            < 0.5\n        ):\n            continue\n        list_sym_basis.append(sym_tensor.reshape(1, -1))\n", "        flat = (sym_tensor / np.linalg.norm(sym_tensor)).reshape(1, -1)\n        # Store if independent to other symmetric tensors\n        if list_sym_basis:\n            others = np.concatenate(list_sym_basis, axis=0)\n            if grassmann_distance(flat, others) < 0.5:\n                continue\n        list_sym_basis.append(flat)\n"))
f("y_sym_sum", X, "apply_intrinsic_symmetry", None,
  ("        perms = list(permutations(range(rank)))\n        # Apply intrinsic symmetry\n        sym_tensor = np.zeros_like(coeff)\n        coeff = coeff / np.linalg.norm(coeff)\n        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "        normalized = coeff / np.linalg.norm(coeff)\n        # Apply intrinsic symmetry\n        sym_tensor = np.zeros_like(coeff)\n        for perm in permutations(range(rank)):\n            sym_tensor = sym_tensor + np.transpose(normalized, perm)\n"))

if __name__ == "__main__":
    M.main(R, sys.argv[1:])
