"""Evaluation aid (not a check): fourth round of behaviour-preserving rewrites - shared helpers across modules, option dicts, generators, closures, classes."""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import manual_ref as M
R = []
SRC = {fn: open(M.SRC + "/" + fn).read() for fn in os.listdir(M.SRC) if fn.endswith(".py")}


def g(id, *changes):
    """changes: (file, func, (old, new)...) within the unparsed function; (file, "+", code) appended; (file, "import", line)."""
    files = {}
    for ch in changes:
        file, name, subs = ch[0], ch[1], ch[2:]
        s = files.get(file, SRC[file])
        if name == "+":
            s = s + "\n\n" + subs[0].strip("\n") + "\n"
        elif name == "import":
            i = s.index("import numpy as np")
            s = s[:i] + subs[0] + "\n" + s[i:]
        else:
            fd = next(n for n in ast.parse(s).body if isinstance(n, ast.FunctionDef) and n.name == name)
            seg = ast.get_source_segment(s, fd)
            if isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant):
                fd.body = fd.body[1:]
            code = ast.unparse(fd)
            for o, n in subs:
                if o not in code:
                    print("NOMATCH", id, o[:80]); return
                code = code.replace(o, n, 1) if not o.startswith("@all ") else code
            s = s.replace(seg, code, 1)
        ast.parse(s)
        files[file] = s
    R.append((id, files))


def one(x):
    id, files = x
    d = tempfile.mkdtemp(prefix="mref")
    try:
        shutil.copytree(M.SRC, d + "/s", ignore=shutil.ignore_patterns("__pycache__"))
        ch = []
        for fn, s in files.items():
            open(f"{d}/s/{fn}", "w").write(s)
            fa = {f.name: ast.dump(f) for f in ast.parse(SRC[fn]).body if isinstance(f, ast.FunctionDef)}
            ch += [f.name for f in ast.parse(s).body if isinstance(f, ast.FunctionDef) and f.name in fa and ast.dump(f) != fa[f.name]]
        if os.environ.get("TESTS"):
            w = d + "/w"
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            for fn, s in files.items():
                open(f"{w}/src/spgrep/{fn}", "w").write(s)
            q = subprocess.run("PYTHONPATH=src OPENBLAS_NUM_THREADS=1 timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3", shell=True, cwd=w, capture_output=True, text=True)
            return id, "TESTS", q.stdout.strip().split("\n")[-1]
        o = subprocess.run([sys.executable, "-m", "sa.compare", "spec", d + "/s"] + ch, cwd="/verif", env={**os.environ, "PYTHONHASHSEED": "0"}, capture_output=True, text=True, timeout=900)
        return id, ",".join(ch), o.stdout.strip() + o.stderr[-300:]
    finally:
        shutil.rmtree(d)


def main(R, sel):
    rs = [x for x in R if not sel or any(s in x[0] for s in sel)]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for id, fn, out in ex.map(one, rs):
            v = "DIFF" if "DIFF" in out else "UND" if "UND" in out else "EQ" if "EQ" in out else out
            cnt[v[:9]] = cnt.get(v[:9], 0) + 1
            print(f"{v:5} {id:22} {fn}", "" if v == "EQ" else "\n      " + out[:1500] if os.environ.get("V") or v == "DIFF" else "", flush=True)
    print(cnt)


# ---------------------------------------------------------------- phases shared by four modules
PH = '''
def get_translation_phases(kpoint, translations):
    """Return phase of each translation at a given k vector."""
    return np.array([np.exp(-2j * np.pi * np.dot(kpoint, t)) for t in translations])
'''
PHV = '''
def get_translation_phases(kpoint, translations):
    """Return phase of each translation at a given k vector."""
    return np.exp(-2j * np.pi * np.dot(translations, kpoint))
'''
OLDPH = "np.array([np.exp(-2j * np.pi * np.dot(kpoint, translation)) for translation in little_translations])"
NEWPH = "get_translation_phases(kpoint, little_translations)"
for tag, h in (("", PH), ("_vec", PHV)):
    g("x_phases" + tag, ("utils.py", "+", h),
      ("irreps.py", "import", "from spgrep.utils import get_translation_phases"), ("irreps.py", "enumerate_small_representations", (OLDPH, NEWPH)),
      ("spinor.py", "import", "from spgrep.utils import get_translation_phases"), ("spinor.py", "enumerate_spinor_small_representations", (OLDPH, NEWPH)),
      ("corep.py", "import", "from spgrep.utils import get_translation_phases"), ("corep.py", "enumerate_spinor_small_corepresentations", (OLDPH, NEWPH)))
g("x_phase_apply", ("utils.py", "+", '''
def apply_phases(irreps, kpoint, translations):
    phases = np.array([np.exp(-2j * np.pi * np.dot(kpoint, t)) for t in translations])
    return [irrep * phases[:, None, None] for irrep in irreps]
'''), ("spinor.py", "import", "from spgrep.utils import apply_phases"),
  ("spinor.py", "enumerate_spinor_small_representations", ("    phases = " + OLDPH + "\n    irreps = []\n    for rep in little_cogroup_irreps:\n        irreps.append(rep * phases[:, None, None])\n    return (irreps,", "    return (apply_phases(little_cogroup_irreps, kpoint, little_translations),")),
  ("irreps.py", "import", "from spgrep.utils import apply_phases"),
  ("irreps.py", "enumerate_small_representations", ("    irreps = []\n    for rep in little_cogroup_irreps:\n        phases = " + OLDPH + "\n        irreps.append(rep * phases[:, None, None])\n", "    irreps = apply_phases(little_cogroup_irreps, kpoint, little_translations)\n")))
# ---------------------------------------------------------------- factor set of overlaps shared by spinor and corep
g("x_overlap", ("spinor.py", "+", '''
def _overlap_sign(product, reference):
    """Return +1 or -1 such that product = sign * reference."""
    overlap = np.real(np.trace(product @ np.conj(reference.T)))
    return 1 if overlap > 0 else -1
'''), ("spinor.py", "get_spinor_factor_system", ("        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n        spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "        spinor_factor_system[i, j] = _overlap_sign(uiuj, unitary_rotations[k])")),
  ("corep.py", "import", "from spgrep.spinor import _overlap_sign"),
  ("corep.py", "get_corep_spinor_factor_system", ("            overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n            corep_spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "            corep_spinor_factor_system[i, j] = _overlap_sign(uiuj, unitary_rotations[k])")))
g("x_overlap_sum", ("spinor.py", "+", '''
def _overlap_sign(product, reference):
    return np.where(np.sum(product * np.conj(reference)).real > 0, 1, -1)
'''), ("spinor.py", "get_spinor_factor_system", ("        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))\n        spinor_factor_system[i, j] = 1 if overlap > 0 else -1", "        spinor_factor_system[i, j] = _overlap_sign(uiuj, unitary_rotations[k])")))
# ---------------------------------------------------------------- conjugate pairs shared within irreps
OLDP = """    conjugated_pairs = []
    visited = [False for _ in range(len(irreps))]
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if visited[i]:
            continue
        visited[i] = True
        inequivalent = False
        for j, cj in enumerate(characters):
            if visited[j]:
                continue
            if is_equivalent_irrep(np.conj(ci), cj):
                conjugated_pairs.append((i, j))
                visited[j] = True
                inequivalent = True
                break
        if not inequivalent:
            conjugated_pairs.append((i, i))
"""
HP = """
def _find_conjugated_pairs(irreps):
    conjugated_pairs = []
    visited = [False] * len(irreps)
    characters = [get_character(irrep) for irrep in irreps]
    for i, ci in enumerate(characters):
        if visited[i]:
            continue
        visited[i] = True
        partner = i
        for j, cj in enumerate(characters):
            if not visited[j] and is_equivalent_irrep(np.conj(ci), cj):
                partner = j
                visited[j] = True
                break
        conjugated_pairs.append((i, partner))
    return conjugated_pairs
"""
g("x_pairs", ("irreps.py", "+", HP), ("irreps.py", "enumerate_small_representations", (OLDP, "    conjugated_pairs = _find_conjugated_pairs(irreps)\n")), ("irreps.py", "enumerate_unitary_irreps", (OLDP, "    conjugated_pairs = _find_conjugated_pairs(irreps)\n")))
HR = """
def _to_physically(irreps, indicator_is_defined, atol, max_num_random_generations):
    real_irreps = []
    indicators = []
    for i, _ in _find_conjugated_pairs(irreps):
        irrep = irreps[i]
        indicator = frobenius_schur_indicator(irrep) if indicator_is_defined else 0
        real_irrep = get_physically_irrep(irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations)
        real_irreps.append(purify_real_irrep_value(real_irrep, atol=atol))
        indicators.append(indicator)
    return real_irreps, indicators
"""
TAILS = """    real_irreps = []
    indicators = []
    for conj_pair in conjugated_pairs:
        irrep = irreps[conj_pair[0]]
        indicator = frobenius_schur_indicator(irrep) if %s else 0
        real_irrep = get_physically_irrep(irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations)
        real_irrep = purify_real_irrep_value(real_irrep, atol=atol)
        real_irreps.append(real_irrep)
        indicators.append(indicator)
    return (real_irreps, indicators)"""
g("x_physical", ("irreps.py", "+", HP.strip("\n") + "\n\n" + HR),
  ("irreps.py", "enumerate_small_representations", (OLDP, ""), (TAILS % "is_self_conjugate_kpoint", "    return _to_physically(irreps, is_self_conjugate_kpoint, atol, max_num_random_generations)")),
  ("irreps.py", "enumerate_unitary_irreps", (OLDP, ""), (TAILS % "is_real_factor_system", "    return _to_physically(irreps, is_real_factor_system, atol, max_num_random_generations)")))
g("x_indicator", ("irreps.py", "+", '''
def _indicator(irrep, defined):
    if not defined:
        return 0
    return frobenius_schur_indicator(irrep)
'''), ("irreps.py", "enumerate_small_representations", ("[frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0 for irrep in irreps]", "[_indicator(irrep, is_self_conjugate_kpoint) for irrep in irreps]"), ("indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0", "indicator = _indicator(irrep, is_self_conjugate_kpoint)")))
# ---------------------------------------------------------------- option dictionaries
g("x_options_core", ("core.py", "get_spacegroup_irreps", ("    prim_irreps, mapping_prim_little_group = get_spacegroup_irreps_from_primitive_symmetry(rotations=uniq_prim_rotations, translations=uniq_prim_translations, kpoint=prim_kpoint, method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)",
  "    options = dict(method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)\n    prim_irreps, mapping_prim_little_group = get_spacegroup_irreps_from_primitive_symmetry(uniq_prim_rotations, uniq_prim_translations, prim_kpoint, **options)")))
g("x_options_sp", ("core.py", "get_spacegroup_spinor_irreps",
  ("    if magmoms is None:\n        prim_irreps, little_spinor_factor_system", "    kwargs = {'lattice': prim_lattice, 'rotations': uniq_prim_rotations, 'translations': uniq_prim_translations, 'kpoint': prim_kpoint, 'method': method, 'rtol': rtol, 'atol': atol, 'max_num_random_generations': max_num_random_generations}\n    if magmoms is None:\n        prim_irreps, little_spinor_factor_system"),
  ("get_spacegroup_spinor_irreps_from_primitive_symmetry(lattice=prim_lattice, rotations=uniq_prim_rotations, translations=uniq_prim_translations, kpoint=prim_kpoint, method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)", "get_spacegroup_spinor_irreps_from_primitive_symmetry(**kwargs)"),
  ("get_spacegroup_spinor_irreps_from_primitive_symmetry(lattice=prim_lattice, rotations=uniq_prim_rotations, translations=uniq_prim_translations, time_reversals=uniq_prim_time_reversals, kpoint=prim_kpoint, method=method, rtol=rtol, atol=atol, max_num_random_generations=max_num_random_generations)", "get_spacegroup_spinor_irreps_from_primitive_symmetry(time_reversals=uniq_prim_time_reversals, **kwargs)")))
g("x_partial", ("irreps.py", "import", "from functools import partial"), ("irreps.py", "enumerate_unitary_irreps",
  ("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n", "    purify = partial(purify_irrep_value, atol=atol)\n    for irrep in irreps:\n        purify(irrep)\n")))
# ---------------------------------------------------------------- core sanity check
SAN = """    for rotation, translation in zip(rotations, translations):
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and (not np.allclose(translation, 0, atol=atol)):
            raise ValueError('Specify symmetry operations in primitive cell!')
"""
SANT = """    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
        if time_reversals is not None and time_reversals[i] == 1:
            continue
        if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and (not np.allclose(translation, 0, atol=atol)):
            raise ValueError('Specify symmetry operations in primitive cell!')
"""
g("x_sanity", ("core.py", "+", '''
def _check_primitive(rotations, translations, rtol, atol, time_reversals=None):
    """Raise error if there is a pure translation."""
    if time_reversals is None:
        time_reversals = [0] * len(rotations)
    for rotation, translation, time_reversal in zip(rotations, translations, time_reversals):
        if time_reversal == 1:
            continue
        is_identity = np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol)
        if is_identity and not np.allclose(translation, 0, atol=atol):
            raise ValueError("Specify symmetry operations in primitive cell!")
'''), ("core.py", "get_spacegroup_irreps_from_primitive_symmetry", (SAN, "    _check_primitive(rotations, translations, rtol, atol)\n")),
  ("core.py", "get_spacegroup_spinor_irreps_from_primitive_symmetry", (SANT, "    _check_primitive(rotations, translations, rtol, atol, time_reversals)\n")))
g("x_sanity_pred", ("core.py", "+", '''
def _is_pure_translation(rotation, translation, rtol, atol):
    if not np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol):
        return False
    return not np.allclose(translation, 0, atol=atol)
'''), ("core.py", "get_spacegroup_irreps_from_primitive_symmetry", ("np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and (not np.allclose(translation, 0, atol=atol))", "_is_pure_translation(rotation, translation, rtol, atol)")),
  ("core.py", "get_spacegroup_spinor_irreps_from_primitive_symmetry", ("np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and (not np.allclose(translation, 0, atol=atol))", "_is_pure_translation(rotation, translation, rtol, atol)")))
g("x_kconv", ("core.py", "+", '''
def _to_conventional_kpoint(lattice, kpoint, reciprocal_lattice):
    dual_lattice = np.linalg.inv(lattice).T
    if reciprocal_lattice is None:
        reciprocal_lattice = dual_lattice
    return kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)
'''), ("core.py", "get_spacegroup_irreps", ("    dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)", "    kpoint_conv = _to_conventional_kpoint(lattice, kpoint, reciprocal_lattice)")),
  ("core.py", "get_spacegroup_spinor_irreps", ("    dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)", "    kpoint_conv = _to_conventional_kpoint(lattice, kpoint, reciprocal_lattice)")))
g("x_kconv_skip", ("core.py", "get_spacegroup_irreps", ("    dual_lattice = np.linalg.inv(lattice).T\n    if reciprocal_lattice is None:\n        reciprocal_lattice = dual_lattice\n    kpoint_conv = kpoint @ reciprocal_lattice @ np.linalg.inv(dual_lattice)", "    if reciprocal_lattice is None:\n        kpoint_conv = np.asarray(kpoint)\n    else:\n        kpoint_conv = kpoint @ reciprocal_lattice @ np.transpose(lattice)")))
g("x_adjust", ("core.py", "_adjust_phase_for_centering_translations",
  ("    for i in range(len(mapping_to_prim)):\n        idx_prim = mapping_to_prim[i]\n        idx_prim_little = remapping_prim_little_group.get(idx_prim)\n        if idx_prim_little is None:\n            continue\n", "    for i, idx_prim in enumerate(mapping_to_prim):\n        if idx_prim not in remapping_prim_little_group:\n            continue\n        idx_prim_little = remapping_prim_little_group[idx_prim]\n"),
  ("        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n    phases = np.array([np.exp(-2j * np.pi * np.dot(prim_kpoint, shift)) for shift in shifts])", "        shift = prim_translations[i] - uniq_prim_translations[idx_prim]\n        phases.append(np.exp(-2j * np.pi * np.dot(prim_kpoint, shift)))\n    phases = np.array(phases)"),
  ("    shifts = []", "    phases = []")))
g("x_adjust2", ("core.py", "_adjust_phase_for_centering_translations",
  ("    phases = np.array([np.exp(-2j * np.pi * np.dot(prim_kpoint, shift)) for shift in shifts])\n    irreps = []\n    for prim_irrep in prim_irreps:\n        irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]\n        irrep = purify_irrep_value(irrep, atol=atol)\n        irreps.append(irrep)\n", "    phases = np.exp(-2j * np.pi * (np.array(shifts) @ prim_kpoint))[:, np.newaxis, np.newaxis]\n    irreps = [purify_irrep_value(prim_irrep[mapping_conv_to_prim_little_group] * phases, atol=atol) for prim_irrep in prim_irreps]\n")))
g("x_adjust3", ("core.py", "_adjust_phase_for_centering_translations",
  ("    for i in range(len(mapping_to_prim)):\n        idx_prim = mapping_to_prim[i]\n        idx_prim_little = remapping_prim_little_group.get(idx_prim)\n        if idx_prim_little is None:\n            continue\n        mapping_little_group.append(i)\n        mapping_conv_to_prim_little_group.append(idx_prim_little)\n        shifts.append(prim_translations[i] - uniq_prim_translations[idx_prim])\n", "    mapping_little_group = [i for i, idx in enumerate(mapping_to_prim) if idx in remapping_prim_little_group]\n    mapping_conv_to_prim_little_group = [remapping_prim_little_group[mapping_to_prim[i]] for i in mapping_little_group]\n    shifts = [prim_translations[i] - uniq_prim_translations[mapping_to_prim[i]] for i in mapping_little_group]\n")))
# ---------------------------------------------------------------- group
g("x_residual", ("group.py", "+", '''
def _get_residual(rotation, kpoint, time_reversal):
    """Return g * k - k."""
    transformed = rotation.T @ kpoint
    if time_reversal:
        transformed = -transformed
    return transformed - np.asarray(kpoint)
'''), ("group.py", "get_little_group", ("        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and time_reversals[i] == 1:\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n        residual = residual - np.rint(residual)", "        residual = _get_residual(rotation, kpoint, time_reversals is not None and time_reversals[i] == 1)\n        residual -= np.rint(residual)")))
g("x_residual2", ("group.py", "+", '''
def _get_residual(rotation, kpoint, time_reversal=0):
    sign = -1 if time_reversal == 1 else 1
    return rotation.T @ kpoint - sign * np.asarray(kpoint)
'''), ("group.py", "get_little_group", ("        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and time_reversals[i] == 1:\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n        residual = residual - np.rint(residual)", "        time_reversal = 0 if time_reversals is None else time_reversals[i]\n        residual = _get_residual(rotation, kpoint, time_reversal)\n        residual = residual - np.rint(residual)")),
  ("group.py", "get_factor_system_from_little_group", ("        residuals[i] = rotation.T @ kpoint - kpoint\n        if little_time_reversals is not None and little_time_reversals[i] == 1:\n            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)\n", "        time_reversal = 0 if little_time_reversals is None else little_time_reversals[i]\n        residuals[i] = _get_residual(rotation, kpoint, time_reversal)\n")))
g("x_lg_generator", ("group.py", "+", '''
def _iter_little_group(rotations, kpoint, atol, time_reversals):
    for i, rotation in enumerate(rotations):
        residual = rotation.T @ kpoint - kpoint
        if time_reversals is not None and time_reversals[i] == 1:
            residual = rotation.T @ kpoint + np.asarray(kpoint)
        residual = residual - np.rint(residual)
        if np.allclose(residual, 0, atol=atol):
            yield i
'''), ("group.py", "get_little_group", ("    little_rotations = []\n    little_translations = []\n    mapping_little_group = []\n    for i, (rotation, translation) in enumerate(zip(rotations, translations)):\n        residual = rotation.T @ kpoint - kpoint\n        if time_reversals is not None and time_reversals[i] == 1:\n            residual = rotation.T @ kpoint + np.asarray(kpoint)\n        residual = residual - np.rint(residual)\n        if not np.allclose(residual, 0, atol=atol):\n            continue\n        little_rotations.append(rotation)\n        little_translations.append(translation)\n        mapping_little_group.append(i)\n    return (np.array(little_rotations), np.array(little_translations), np.array(mapping_little_group))",
  "    mapping_little_group = list(_iter_little_group(rotations, kpoint, atol, time_reversals))\n    little_rotations = np.array([rotations[i] for i in mapping_little_group])\n    little_translations = np.array([translations[i] for i in mapping_little_group])\n    return (little_rotations, little_translations, np.array(mapping_little_group))")))
g("x_lg_fancy", ("group.py", "get_little_group", ("        little_rotations.append(rotation)\n        little_translations.append(translation)\n", ""), ("    little_rotations = []\n    little_translations = []\n", ""), ("return (np.array(little_rotations), np.array(little_translations), np.array(mapping_little_group))", "mapping_little_group = np.array(mapping_little_group)\n    return (np.asarray(rotations)[mapping_little_group], np.asarray(translations)[mapping_little_group], mapping_little_group)")))
g("x_cay_closure", ("group.py", "get_cayley_table", ("    operations_list = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]\n", "    def as_key(rotation, time_reversal):\n        return (ndarray2d_to_integer_tuple(rotation), time_reversal)\n    operations_list = [as_key(r, tr) for r, tr in zip(rotations, time_reversals)]\n"), ("operations_list.index((ndarray2d_to_integer_tuple(rk), trk))", "operations_list.index(as_key(rk, trk))")))
g("x_cay_lambda", ("group.py", "get_cayley_table", ("    operations_list = [(ndarray2d_to_integer_tuple(r), tr) for r, tr in zip(rotations, time_reversals)]\n", "    as_key = lambda rotation, time_reversal: (ndarray2d_to_integer_tuple(rotation), time_reversal)\n    operations_list = list(map(as_key, rotations, time_reversals))\n")))
g("x_cay_np", ("group.py", "get_cayley_table", ("table = [[-1 for _ in range(order)] for _ in range(order)]", "table = np.full((order, order), -1, dtype=int)"), ("if table[i][j] != -1:", "if table[i, j] != -1:"), ("table[i][j] = k", "table[i, j] = k"), ("return np.array(table)", "return table")))
g("x_cay_product", ("group.py", "get_cayley_table", ("    for i, (ri, tri) in enumerate(zip(rotations, time_reversals)):\n        for j, (rj, trj) in enumerate(zip(rotations, time_reversals)):\n            rk = ri @ rj\n            trk = tri != trj\n            k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n            if table[i][j] != -1:\n                raise ValueError('Should specify a matrix group.')\n            table[i][j] = k\n", "    for i, j in product(range(order), repeat=2):\n        rk = rotations[i] @ rotations[j]\n        trk = time_reversals[i] != time_reversals[j]\n        k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))\n        if table[i][j] != -1:\n            raise ValueError('Should specify a matrix group.')\n        table[i][j] = k\n")))
g("x_fs_helper", ("group.py", "get_factor_system_from_little_group", ("    factor_system = np.zeros((n, n), dtype=np.complex_)\n    for i, residual in enumerate(residuals):\n        for j, translation in enumerate(little_translations):\n            factor_system[i, j] = np.exp(-2j * np.pi * np.dot(residual, translation))\n    return factor_system", "    return np.exp(-2j * np.pi * residuals @ np.transpose(little_translations))")))
g("x_msg_find", ("group.py", "+", '''
def _find_operation(rotations, translations, candidates, rotation, translation):
    for j in candidates:
        if not np.allclose(rotation, rotations[j]):
            continue
        diff = np.remainder(translation - translations[j], 1)
        diff -= np.rint(diff)
        if np.allclose(diff, 0):
            return j
    return None
'''), ("group.py", "decompose_by_maximal_space_subgroup", ("        for j in range(order):\n            if time_reversals[j] == 0:\n                continue\n            if not np.allclose(new_rot, rotations[j]):\n                continue\n            diff = np.remainder(new_trans - translations[j], 1)\n            diff -= np.rint(diff)\n            if np.allclose(diff, 0):\n                time_reversal_indices.append(j)\n                break\n", "        candidates = [j for j in range(order) if time_reversals[j] != 0]\n        j = _find_operation(rotations, translations, candidates, new_rot, new_trans)\n        if j is not None:\n            time_reversal_indices.append(j)\n")))
g("x_msg_next", ("group.py", "decompose_by_maximal_space_subgroup", ("    conjugator_rotation = None\n    conjugator_translation = None\n    a0_idx = -1\n    for i, (rot, trans, tr) in enumerate(zip(rotations, translations, time_reversals)):\n        if tr == 0:\n            continue\n        conjugator_rotation = rot.copy()\n        conjugator_translation = trans.copy()\n        a0_idx = i\n        break\n", "    a0_idx = next(i for i, tr in enumerate(time_reversals) if tr != 0)\n    conjugator_rotation = rotations[a0_idx]\n    conjugator_translation = translations[a0_idx]\n")))
g("x_ident_helper", ("group.py", "get_inverse_index", ("    for i in range(order):\n        if table[idx, i] == id_idx:\n            return i\n    raise ValueError('Unreachable!')", "    matched = [i for i in range(order) if table[idx, i] == id_idx]\n    if not matched:\n        raise ValueError('Unreachable!')\n    return matched[0]")))
g("x_order_rec", ("group.py", "get_order", ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret", "    def count(element):\n        if element == id_idx:\n            return 1\n        return 1 + count(table[element, idx])\n    return count(idx)")))
g("x_order_powers", ("group.py", "get_order", ("    ret = 1\n    tmp = idx\n    while tmp != id_idx:\n        tmp = table[tmp, idx]\n        ret += 1\n    return ret", "    powers = [idx]\n    while powers[-1] != id_idx:\n        powers.append(table[powers[-1], idx])\n    return len(powers)")))
g("x_ismg_split", ("group.py", "+", '''
def _is_latin(table):
    elements = set(range(table.shape[0]))
    return all(set(row) == elements for row in table)
'''), ("group.py", "is_matrix_group", ("    order = rotations.shape[0]\n    for i in range(order):\n        if set(table[i]) != set(range(order)):\n            return False\n    return True", "    return _is_latin(table)")))
g("x_coc_index", ("group.py", "check_cocycle_condition", ("    rotations_int = [ndarray2d_to_integer_tuple(r) for r in rotations]\n", "    rotations_int = [ndarray2d_to_integer_tuple(r) for r in rotations]\n\n    def multiply(a, b):\n        return rotations_int.index(ndarray2d_to_integer_tuple(rotations[a] @ rotations[b]))\n"), ("rotations_int.index(ndarray2d_to_integer_tuple(rotations[j] @ rotations[k]))", "multiply(j, k)"), ("rotations_int.index(ndarray2d_to_integer_tuple(rotations[i] @ rotations[j]))", "multiply(i, j)")))
g("x_coc_lhs", ("group.py", "check_cocycle_condition", ("        if not np.isclose(factor_system[i, jk] * factor_system[j, k], factor_system[ij, k] * factor_system[i, j]):\n            return False\n", "        lhs = factor_system[i, jk] * factor_system[j, k]\n        rhs = factor_system[ij, k] * factor_system[i, j]\n        if not np.isclose(lhs, rhs):\n            return False\n")))
# ---------------------------------------------------------------- irreps
g("x_ch_stages", ("irreps.py", "+", '''
def _get_powers(table, r, p, identity):
    powers = [identity]
    for _ in range(p - 1):
        powers.append(table[powers[-1], r])
    return powers


def _inverse_mapping(indices):
    return {idx: i for i, idx in enumerate(indices)}


def _unique_irreps(candidates):
    irreps = []
    characters = []
    for irrep in candidates:
        character = get_character(irrep)
        if not any(is_equivalent_irrep(character, c) for c in characters):
            irreps.append(irrep)
            characters.append(character)
    return irreps
'''), ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("        rm = [identity]\n        rinvm = [identity]\n        rinv = get_inverse_index(table, r)\n        for m in range(1, p):\n            rm.append(table[rm[m - 1], r])\n            rinvm.append(table[rinvm[m - 1], rinv])\n", "        rinv = get_inverse_index(table, r)\n        rm = _get_powers(table, r, p, identity)\n        rinvm = _get_powers(table, rinv, p, identity)\n"),
  ("        subgroup_remapping = {}\n        for i, si in enumerate(subgroup):\n            subgroup_remapping[si] = i\n        group_remapping = {}\n        for i, gi in enumerate(group):\n            group_remapping[gi] = i\n", "        subgroup_remapping = _inverse_mapping(subgroup)\n        group_remapping = _inverse_mapping(group)\n"),
  ("        irreps.clear()\n        sub_characters = []\n        for sub_irrep in next_sub_irreps:\n            character = get_character(sub_irrep)\n            if any([is_equivalent_irrep(character, c) for c in sub_characters]):\n                continue\n            irreps.append(sub_irrep)\n            sub_characters.append(character)\n", "        irreps = _unique_irreps(next_sub_irreps)\n")))
g("x_ch_induce", ("irreps.py", "+", '''
def _induce(sub_irrep, table, factor_system, subgroup, group_size, rm, rinvm, subgroup_remapping, group_remapping):
    p = len(rm)
    dim = sub_irrep.shape[1]
    induced = np.zeros((group_size, dim * p, dim * p), dtype=np.complex_)
    for m in range(p):
        for s in subgroup:
            idx = table[rm[m], s]
            for j in range(p):
                i = (j + m) % p
                sj = table[rinvm[j], table[s, rm[j]]]
                block = factor_system[idx, rm[j]] / factor_system[rm[i], sj] * sub_irrep[subgroup_remapping[sj]]
                induced[group_remapping[idx], i * dim : (i + 1) * dim, j * dim : (j + 1) * dim] = block
    return induced
'''), ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("                next_irrep = np.zeros((len(group), dim * p, dim * p), dtype=np.complex_)\n                for m in range(p):\n                    for s in subgroup:\n                        idx = table[rm[m], s]\n                        for j in range(p):\n                            i = (j + m) % p\n                            sj = table[rinvm[j], table[s, rm[j]]]\n                            next_irrep[group_remapping[idx], i * dim:(i + 1) * dim, j * dim:(j + 1) * dim] = factor_system[idx, rm[j]] / factor_system[rm[i], sj] * sub_irrep[subgroup_remapping[sj]]\n", "                next_irrep = _induce(sub_irrep, table, factor_system, subgroup, len(group), rm, rinvm, subgroup_remapping, group_remapping)\n")))
g("x_ch_conj", ("irreps.py", "+", '''
def _conjugate_irrep(sub_irrep, table, factor_system, subgroup, remapping, rj, rinvj):
    conj = []
    for s in subgroup:
        sj = table[rinvj, table[s, rj]]
        conj.append(factor_system[s, rj] / factor_system[rj, sj] * sub_irrep[remapping[sj]])
    return np.array(conj)
'''), ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("            conj_sub_irreps = []\n            for j in range(p):\n                conj_sub_irrep = []\n                for s in subgroup:\n                    sj = table[rinvm[j], table[s, rm[j]]]\n                    conj_sub_irrep.append(factor_system[s, rm[j]] / factor_system[rm[j], sj] * sub_irrep[subgroup_remapping[sj]])\n                conj_sub_irreps.append(np.array(conj_sub_irrep))\n", "            conj_sub_irreps = [_conjugate_irrep(sub_irrep, table, factor_system, subgroup, subgroup_remapping, rm[j], rinvm[j]) for j in range(p)]\n")))
g("x_ch_two", ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("            conj_characters = [get_character(conj_sub_irrep) for conj_sub_irrep in conj_sub_irreps]\n            if is_equivalent_irrep(conj_characters[0], conj_characters[1]):", "            is_self_conjugate = is_equivalent_irrep(get_character(conj_sub_irreps[0]), get_character(conj_sub_irreps[1]))\n            if is_self_conjugate:")))
g("x_ch_omega", ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("                omega = 1 / nroot(np.prod([factor_system[r, rm[m]] for m in range(1, p)]), p)\n", "                factors = [factor_system[r, rm[m]] for m in range(1, p)]\n                omega = 1 / nroot(np.prod(factors), p)\n"),
  ("                    omegaq = omega * np.exp(2j * np.pi * q / p)\n                    delta_r = intertwiner / omegaq\n", "                    delta_r = intertwiner / (omega * np.exp(2j * np.pi * q / p))\n")))
g("x_ch_sets", ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("        group = []\n        for m in range(p):\n            group.extend([table[rm[m], s] for s in subgroup])\n        group = sorted(list(set(group)))\n", "        elements = set()\n        for m in range(p):\n            for s in subgroup:\n                elements.add(table[rm[m], s])\n        group = sorted(elements)\n")))
g("x_ch_len", ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("    if group != list(range(table.shape[0])):\n", "    order = table.shape[0]\n    if not group == list(range(order)):\n")))
g("x_ch_revloop", ("irreps.py", "enumerate_unitary_irreps_from_solvable_group_chain",
  ("    for r in solvable_chain_generators[::-1]:\n", "    for r in reversed(solvable_chain_generators):\n"), ("        subgroup = group[:]\n", "        subgroup = list(group)\n")))
g("x_mat_eigenspaces", ("irreps.py", "+", '''
def _group_eigenvectors(eigvals, eigvecs, rtol):
    """Group eigenvectors by degenerated eigenvalues."""
    eigenspaces = []
    for eigval, eigvec in zip(eigvals, eigvecs.T):
        for eigval2, list_eigvecs in eigenspaces:
            if np.isclose(eigval, eigval2, rtol=rtol):
                list_eigvecs.append(eigvec)
                break
        else:
            eigenspaces.append((eigval, [eigvec]))
    return eigenspaces
'''), ("irreps.py", "_get_irreps_from_matrix",
  ("    eigenspaces: list[float, list[NDArrayFloat]] = []\n    for eigval, eigvec in zip(eigvals, eigvecs.T):\n        is_new_space = True\n        for i, (eigval2, _) in enumerate(eigenspaces):\n            if np.isclose(eigval, eigval2, rtol=rtol):\n                eigenspaces[i][1].append(eigvec)\n                is_new_space = False\n                break\n        if is_new_space:\n            eigenspaces.append((eigval, [eigvec]))\n", "    eigenspaces = _group_eigenvectors(eigvals, eigvecs, rtol)\n")))
g("x_mat_unique", ("irreps.py", "+", '''
def _is_known(character, characters, order, rtol):
    for other in characters:
        overlap = np.around(np.sum(np.conj(character) * other))
        if np.isclose(overlap, order, rtol=rtol):
            return True
    return False
'''), ("irreps.py", "_get_irreps_from_matrix",
  ("        is_unique = True\n        for character2 in characters:\n            product = np.around(np.sum(np.conj(character) * character2))\n            if np.isclose(product, order, rtol=rtol):\n                is_unique = False\n                break\n        if not is_unique:\n            continue\n", "        if _is_known(character, characters, order, rtol):\n            continue\n")))
g("x_mat_sort", ("irreps.py", "_get_irreps_from_matrix",
  ("    argidx = sorted(range(len(irreps)), key=lambda i: (irreps[i].shape[1], -np.sum(characters[i])))\n    sorted_irreps = [irreps[i] for i in argidx]\n    return sorted_irreps", "    def sort_key(i):\n        dim = irreps[i].shape[1]\n        return (dim, -np.sum(characters[i]))\n    order_of_irreps = list(range(len(irreps)))\n    order_of_irreps.sort(key=sort_key)\n    return [irreps[i] for i in order_of_irreps]")))
g("x_mat_conjT", ("irreps.py", "_get_irreps_from_matrix",
  ("        transformation = np.linalg.qr(np.transpose(list_eigvecs))[0]\n", "        transformation, _ = np.linalg.qr(np.array(list_eigvecs).T)\n        conj_transformation = transformation.conj()\n"),
  ("np.einsum('li,klm,mi->k', np.conj(transformation), reg", "np.einsum('li,klm,mi->k', conj_transformation, reg"), ("np.einsum('li,klm,mj->kij', np.conj(transformation), reg", "np.einsum('li,klm,mj->kij', conj_transformation, reg")))
g("x_reg_hermite", ("irreps.py", "+", '''
def _random_hermitian(rng, n):
    matrix = rng.random((n, n)) + rng.random((n, n)) * 1j
    return matrix + np.conj(matrix.T)
'''), ("irreps.py", "enumerate_unitary_irreps_from_regular_representation", ("        hermite_random = rng.random((n, n)) + rng.random((n, n)) * 1j\n        hermite_random += np.conj(hermite_random.T)\n", "        hermite_random = _random_hermitian(rng, n)\n")),
  ("irreps.py", "decompose_representation", ("        hermite_random = rng.random((dim0, dim0)) + rng.random((dim0, dim0)) * 1j\n        hermite_random += np.conj(hermite_random.T)\n", "        hermite_random = _random_hermitian(rng, dim0)\n")))
g("x_reg_while", ("irreps.py", "decompose_representation", ("    for _ in range(max_num_random_generations):\n", "    num_trials = 0\n    while num_trials < max_num_random_generations:\n        num_trials += 1\n")))
g("x_reg_dimsum", ("irreps.py", "decompose_representation", ("        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:\n", "        total_dim = 0\n        for irrep in irreps:\n            total_dim += irrep.shape[1]\n        if total_dim == dim0:\n")))
g("x_un_methods", ("irreps.py", "enumerate_unitary_irreps", ("    if method == 'Neto':", "    if method not in ('Neto', 'random'):\n        raise ValueError(f'Unknown method to compute irreps: {method}')\n    if method == 'Neto':"), ("    elif method == 'random':", "    else:"), ("    else:\n        raise ValueError(f'Unknown method to compute irreps: {method}')\n    for irrep", "    for irrep")))
g("x_un_neto_fn", ("irreps.py", "+", '''
def _enumerate_by_chain(rotations, factor_system, atol, max_num_random_generations):
    return enumerate_unitary_irreps_from_solvable_group_chain(
        get_cayley_table(rotations),
        factor_system,
        get_pointgroup_chain_generators(rotations),
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
'''), ("irreps.py", "enumerate_unitary_irreps", ("        table = get_cayley_table(rotations)\n        solvable_chain_generators = get_pointgroup_chain_generators(rotations)\n        irreps = enumerate_unitary_irreps_from_solvable_group_chain(table, factor_system, solvable_chain_generators, atol=atol, max_num_random_generations=max_num_random_generations)\n", "        irreps = _enumerate_by_chain(rotations, factor_system, atol, max_num_random_generations)\n")))
g("x_un_purify_comp", ("irreps.py", "enumerate_unitary_irreps", ("    for irrep in irreps:\n        irrep = purify_irrep_value(irrep, atol=atol)\n", "    irreps = [purify_irrep_value(irrep, atol=atol) for irrep in irreps]\n")))
g("x_phys_blocks", ("irreps.py", "+", '''
def _realify(irrep):
    """Return real representation on twice dimension."""
    re, im = np.real(irrep), np.imag(irrep)
    return np.concatenate(
        [np.concatenate([re, im], axis=2), np.concatenate([-im, re], axis=2)],
        axis=1,
    )
'''), ("irreps.py", "get_physically_irrep", ("        real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)\n        real_irrep[:, :dim, :dim] = np.real(irrep)\n        real_irrep[:, :dim, dim:] = np.imag(irrep)\n        real_irrep[:, dim:, :dim] = -np.imag(irrep)\n        real_irrep[:, dim:, dim:] = np.real(irrep)\n", "        real_irrep = _realify(irrep)\n")))
g("x_phys_order", ("irreps.py", "get_physically_irrep", ("    order = irrep.shape[0]\n    dim = irrep.shape[1]\n", "    order, dim = irrep.shape[:2]\n"), ("        U = get_intertwiner(irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations)\n", "        U = get_intertwiner(irrep, irrep.conj(), atol=atol, max_num_random_generations=max_num_random_generations)\n"), ("        conj_irrep = np.conj(irrep)\n", "")))
g("x_purify_const", ("irreps.py", "+", '''
_PURIFY_VALUES = (0, 1, np.exp(1j * np.pi / 3), 1j, np.exp(2j * np.pi / 3), -1, np.exp(4j * np.pi / 3), -1j, np.exp(5j * np.pi / 3))
'''), ("irreps.py", "purify_irrep_value", ("    possible_values = [0, 1, np.exp(1j * np.pi / 3), 1j, np.exp(1j * np.pi * 2 / 3), -1, np.exp(1j * np.pi * 4 / 3), -1j, np.exp(1j * np.pi * 5 / 3)]\n    for v in possible_values:\n", "    for v in _PURIFY_VALUES:\n")))
g("x_purify_shared", ("irreps.py", "+", '''
def _snap(array, values, atol):
    """Replace elements close to one of values in place."""
    for v in values:
        mask = np.abs(array - v) < atol
        array[mask] = v
    return array
'''), ("irreps.py", "purify_irrep_value", ("    for v in possible_values:\n        irrep[np.abs(irrep - v) < atol] = v\n    return irrep", "    return _snap(irrep, possible_values, atol)")),
  ("irreps.py", "purify_real_irrep_value", ("    for v in values:\n        real_irrep[np.abs(real_irrep - v) < atol] = v\n    return real_irrep", "    return _snap(real_irrep, values, atol)")))
# ---------------------------------------------------------------- representation
g("x_proj_nested", ("representation.py", "project_to_irrep",
  ("    for _ in range(max_num_trials):\n        basis, count = _project_to_irrep(adjusted_atol)\n        if count == num_basis:\n            break\n        elif count < num_basis:\n", "    for _ in range(max_num_trials):\n        basis, count = _project_to_irrep(adjusted_atol)\n        if count == num_basis:\n            break\n        if count < num_basis:\n")))
g("x_proj_top", ("representation.py", "+", '''
def _collect_basis(representation, irrep, atol):
    order, dim_irrep = irrep.shape[:2]
    dim = representation.shape[1]
    basis = []
    for n in range(dim):
        for j in range(dim_irrep):
            basis_nj = (dim_irrep / order) * np.einsum("ki,km->im", np.conj(irrep[:, :, j]), representation[:, :, n], optimize="greedy")
            if np.allclose(basis_nj, 0, atol=atol):
                continue
            basis_nj = basis_nj / np.linalg.norm(basis_nj, axis=1)[:, None]
            if basis and grassmann_distance(basis_nj, np.concatenate(basis, axis=0)) < 0.5:
                continue
            basis.append(basis_nj)
    return basis
'''), ("representation.py", "project_to_irrep",
  ("        count = 0\n        basis: list[NDArrayComplex] = []\n        for n in range(dim):\n            for j in range(dim_irrep):\n                basis_nj = dim_irrep / order * np.einsum('ki,km->im', np.conj(irrep[:, :, j]), representation[:, :, n], optimize='greedy')\n                if np.allclose(basis_nj, 0, atol=adjusted_atol):\n                    continue\n                basis_nj /= np.linalg.norm(basis_nj, axis=1)[:, None]\n                if len(basis) > 0 and grassmann_distance(basis_nj, np.concatenate(np.array(basis), axis=0)) < 0.5:\n                    continue\n                basis.append(basis_nj)\n                count += 1\n        return (basis, count)", "        basis = _collect_basis(representation, irrep, adjusted_atol)\n        return (basis, len(basis))")))
g("x_proj_shape", ("representation.py", "project_to_irrep", ("    if representation.shape != (order, dim, dim) or irrep.shape != (order, dim_irrep, dim_irrep):\n        raise", "    expected_rep = (order, dim, dim)\n    expected_irrep = (order, dim_irrep, dim_irrep)\n    if not (representation.shape == expected_rep and irrep.shape == expected_irrep):\n        raise")))
g("x_proj_num", ("representation.py", "project_to_irrep", ("    num_basis = np.around(character_sum) / order\n    num_basis = np.around(np.real(num_basis)).astype(int)\n", "    num_basis = int(np.around(np.real(np.around(character_sum) / order)))\n")))
g("x_inter_helper", ("representation.py", "+", '''
def _random_complex(rng, dim):
    return rng.random((dim, dim)) + rng.random((dim, dim)) * 1j
'''), ("representation.py", "get_intertwiner", ("        random = rng.random((dim, dim)) + rng.random((dim, dim)) * 1j\n        matrix = np.einsum('kil,lm,kjm->ij', rep1, random, np.conj(rep2), optimize='greedy')\n        if not np.allclose(matrix, 0, atol=atol):\n            matrix /= np.linalg.det(matrix) ** (1 / dim)\n            return matrix\n", "        matrix = np.einsum('kil,lm,kjm->ij', rep1, _random_complex(rng, dim), rep2.conj(), optimize='greedy')\n        if np.allclose(matrix, 0, atol=atol):\n            continue\n        scale = np.linalg.det(matrix) ** (1 / dim)\n        return matrix / scale\n")))
g("x_reg_shared", ("representation.py", "get_regular_representation", ("    reg = np.zeros((n, n, n), dtype=int)\n    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = 1\n    return reg", "    reg = np.zeros((n, n, n), dtype=int)\n    for k in range(n):\n        for j in range(n):\n            i = table[k, j]\n            reg[k, i, j] = 1\n    return reg")))
g("x_reg_via_proj", ("representation.py", "get_projective_regular_representation", ("    n = len(rotations)\n    table = get_cayley_table(rotations)\n    reg = np.zeros((n, n, n), dtype=np.complex_)\n    for k, j in product(range(n), repeat=2):\n        reg[k, table[k, j], j] = factor_system[k, j]\n    return reg", "    return get_regular_representation(rotations) * factor_system[:, None, :]")))
g("x_isunit_vec", ("representation.py", "is_unitary", ("    for matrix in representation:\n        if not np.allclose(matrix @ np.conj(matrix.T), np.eye(dim)):\n            return False\n    return True", "    identity = np.eye(dim)\n    return all((np.allclose(matrix @ matrix.conj().T, identity) for matrix in representation))")))
g("x_isrep_range", ("representation.py", "is_representation", ("    for i, ri in enumerate(rep):\n        for j, rj in enumerate(rep):\n            actual = ri @ rj\n            expect = rep[table[i, j]] * factor_system[i, j]\n            if not np.allclose(actual, expect, rtol=rtol, atol=atol):\n                return False\n    return True", "    for i, j in product(range(order), range(order)):\n        expect = factor_system[i, j] * rep[table[i, j]]\n        if not np.allclose(rep[i] @ rep[j], expect, rtol=rtol, atol=atol):\n            return False\n    return True")))
g("x_fsi_early", ("representation.py", "frobenius_schur_indicator", ("    indicator = np.einsum('kij,kji->', irrep, irrep, optimize='greedy') / order\n    indicator = int(np.around(np.real(indicator)))\n", "    trace_of_squares = np.einsum('kij,kji->', irrep, irrep, optimize='greedy')\n    indicator = int(np.around(np.real(trace_of_squares / order)))\n")))
g("x_chk_expect", ("representation.py", "check_spacegroup_representation", ("            m12 = spinor_factor_system[idx1, idx2] * np.exp(-2j * np.pi * np.dot(kpoint, t12 - little_translations[idx])) * rep[idx]\n            if not np.allclose(m12, m1 @ m2, rtol=rtol):\n                return False\n", "            shift = t12 - little_translations[idx]\n            phase = np.exp(-2j * np.pi * np.dot(kpoint, shift))\n            expected = spinor_factor_system[idx1, idx2] * phase * rep[idx]\n            is_consistent = np.allclose(expected, m1 @ m2, rtol=rtol)\n            if not is_consistent:\n                return False\n")))
g("x_direct_loop", ("representation.py", "get_direct_product", ("    direct = (rep1[:, :, None, :, None] * rep2[:, None, :, None, :]).reshape(order, dim1 * dim2, dim1 * dim2)\n    return direct", "    dim = dim1 * dim2\n    direct = np.einsum('kij,klm->kiljm', rep1, rep2)\n    return direct.reshape((order, dim, dim))")))
# ---------------------------------------------------------------- spinor
g("x_axis_split", ("spinor.py", "+", '''
def _get_twofold_axis(cart_rotation):
    eigvals, eigvecs = np.linalg.eig(cart_rotation)
    cart_axis = None
    for i in range(3):
        if not np.isclose(eigvals[i], 1):
            continue
        cart_axis = np.real(eigvecs[:, i])
        cart_axis /= np.linalg.norm(cart_axis)
        for j in range(3):
            if not np.isclose(cart_axis[j], 0):
                if cart_axis[j] < 0:
                    cart_axis *= -1
                break
    return cart_axis
'''), ("spinor.py", "get_rotation_angle_and_axis", ("        theta = np.pi\n        eigvals, eigvecs = np.linalg.eig(cart_rotation)\n        cart_axis = None\n        for i in range(3):\n            if not np.isclose(eigvals[i], 1):\n                continue\n            cart_axis = np.real(eigvecs[:, i])\n            cart_axis /= np.linalg.norm(cart_axis)\n            for j in range(3):\n                if not np.isclose(cart_axis[j], 0):\n                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n                    break\n", "        return (np.pi, _get_twofold_axis(cart_rotation))\n"), ("    else:\n        nondiag", "    if True:\n        nondiag")))
g("x_axis_neg", ("spinor.py", "get_rotation_angle_and_axis", ("            if not np.isclose(eigvals[i], 1):\n                continue\n            cart_axis = np.real(eigvecs[:, i])\n            cart_axis /= np.linalg.norm(cart_axis)\n", "            if not np.isclose(eigvals[i], 1):\n                continue\n            cart_axis = np.real(eigvecs[:, i])\n            cart_axis = cart_axis / np.linalg.norm(cart_axis)\n"), ("                    if cart_axis[j] < 0:\n                        cart_axis *= -1\n", "                    if cart_axis[j] < 0:\n                        cart_axis = -cart_axis\n")))
g("x_axis_sincos", ("spinor.py", "get_rotation_angle_and_axis", ("        sin_theta = np.linalg.norm(nondiag) / 2\n        theta = np.arctan2(sin_theta, cos_theta)\n        cart_axis = nondiag / (-2 * sin_theta)", "        norm = np.linalg.norm(nondiag)\n        sin_theta = norm / 2\n        theta = np.arctan2(sin_theta, cos_theta)\n        cart_axis = -nondiag / norm")))
g("x_spin_rot", ("spinor.py", "+", '''
def _to_proper_cartesian(lattice, rotation):
    proper = rotation if np.linalg.det(rotation) > 0 else -rotation
    return lattice.T @ proper @ np.linalg.inv(lattice.T)
'''), ("spinor.py", "get_spinor_unitary_rotation", ("    if np.linalg.det(rotation) > 0:\n        sign = 1\n    else:\n        sign = -1\n    proper_rotation = rotation * sign\n    cart_rotation = lattice.T @ proper_rotation @ np.linalg.inv(lattice.T)\n", "    cart_rotation = _to_proper_cartesian(lattice, rotation)\n")))
g("x_spin_fs_table", ("spinor.py", "get_spinor_factor_system", ("    unitary_rotations = np.zeros((order, 2, 2), dtype=np.complex_)\n    for i, rotation in enumerate(rotations):\n        unitary_rotations[i] = get_spinor_unitary_rotation(lattice, rotation)\n", "    unitary_rotations = np.array([get_spinor_unitary_rotation(lattice, rotation) for rotation in rotations])\n"), ("    for (i, ui), (j, uj) in product(enumerate(unitary_rotations), repeat=2):\n        k = table[i, j]\n        uiuj = ui @ uj\n", "    for i, j in product(range(order), repeat=2):\n        k = table[i, j]\n        uiuj = unitary_rotations[i] @ unitary_rotations[j]\n")))
# ---------------------------------------------------------------- corep
g("x_co_corep_a0", ("corep.py", "+", '''
def _extend_by_a0(irrep_xsg, corep_a0, factors):
    """Return matrices for anti-unitary operations."""
    return np.conj(factors)[:, None, None] * corep_a0[None, :, :] @ np.conj(irrep_xsg)
'''), ("corep.py", "enumerate_spinor_small_corepresentations",
  ("corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ np.conj(irrep)", "corep[a0u] = _extend_by_a0(irrep, U, factor_system[a0_idx, xsg_indices])"),
  ("corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * corep_a0[None, :, :] @ np.conj(corep[xsg_indices])", "corep[a0u] = _extend_by_a0(corep[xsg_indices], corep_a0, factor_system[a0_idx, xsg_indices])"),
  ("corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * corep_a0[None, :, :] @ np.conj(corep[xsg_indices])", "corep[a0u] = _extend_by_a0(corep[xsg_indices], corep_a0, factor_system[a0_idx, xsg_indices])")))
g("x_co_conj_helper", ("corep.py", "+", '''
def _conjugate_irreps(irreps, factor_system, table, a0_idx, xsg_indices, mapping):
    inv_a0_idx = get_inverse_index(table, a0_idx)
    conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]
    conj_mapping = [mapping[idx] for idx in conj_indices]
    factors = factor_system[xsg_indices, a0_idx] / factor_system[a0_idx, conj_indices]
    return [factors[:, None, None] * np.conj(irrep[conj_mapping]) for irrep in irreps]
'''), ("corep.py", "enumerate_spinor_small_corepresentations",
  ("    inv_a0_idx = get_inverse_index(table, a0_idx)\n    for irrep in little_cogroup_irreps:\n        conj_indices = table[inv_a0_idx, table[xsg_indices, a0_idx]]\n        conj_indices_mapping = [xsg_indices_mapping[idx] for idx in conj_indices]\n        conj_irrep = factor_system[xsg_indices, a0_idx][:, None, None] / factor_system[a0_idx, conj_indices][:, None, None] * np.conj(irrep[conj_indices_mapping])\n        conj_irreps.append(conj_irrep)\n", "    conj_irreps = _conjugate_irreps(little_cogroup_irreps, factor_system, table, a0_idx, xsg_indices, xsg_indices_mapping)\n"),
  ("    conj_irreps = []\n    table", "    table")))
g("x_co_indicator", ("corep.py", "+", '''
def _get_indicator(character, factors, mapping, xsg_order):
    total = np.sum(factors * character[mapping])
    indicator = np.around(np.real(total)).astype(int)
    assert indicator % xsg_order == 0
    return indicator // xsg_order
'''), ("corep.py", "enumerate_spinor_small_corepresentations",
  ("        indicator = np.around(np.real(np.sum(factor_a0u_a0u * character_i[a0ua0u_mapping]))).astype(int)\n        assert indicator % xsg_order == 0\n        indicator = indicator // xsg_order\n", "        indicator = _get_indicator(character_i, factor_a0u_a0u, a0ua0u_mapping, xsg_order)\n")))
g("x_co_partner", ("corep.py", "enumerate_spinor_small_corepresentations",
  ("        found = False\n        for j, character_j in enumerate(characters):\n            if visited[j]:\n                continue\n            if is_equivalent_irrep(conj_character_i, character_j):\n                found = True\n                visited[j] = True\n                break\n        assert found\n", "        partner = None\n        for j, character_j in enumerate(characters):\n            if not visited[j] and is_equivalent_irrep(conj_character_i, character_j):\n                partner = j\n                break\n        assert partner is not None\n        visited[partner] = True\n")))
g("x_co_unitary_case", ("corep.py", "enumerate_spinor_small_corepresentations",
  ("    if np.all(little_time_reversals == 0):\n", "    has_time_reversal = np.any(little_time_reversals != 0)\n    if not has_time_reversal:\n")))
g("x_co_merge", ("corep.py", "enumerate_spinor_small_corepresentations",
  ("        elif indicator == -1:\n            U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)\n            corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)\n            corep[xsg_indices, :dim, :dim] = irrep\n            corep[xsg_indices, dim:, dim:] = irrep\n            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = -U\n            corep_a0[dim:, :dim] = U\n            corep[a0u] = np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * corep_a0[None, :, :] @ np.conj(corep[xsg_indices])\n        elif indicator == 0:\n            corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)\n            corep[xsg_indices, :dim, :dim] = irrep\n            corep[xsg_indices, dim:, dim:] = conj_irrep\n            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = factor_system[a0_idx, a0_idx] * irrep[xsg_indices_mapping[table[a0_idx, a0_idx]]]\n            corep_a0[dim:, :dim] = np.eye(dim, dtype=np.complex_)\n            corep[a0u]",
   "        elif indicator in (-1, 0):\n            if indicator == -1:\n                U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)\n                lower, a0_upper, a0_lower = irrep, -U, U\n            else:\n                lower = conj_irrep\n                a0_upper = factor_system[a0_idx, a0_idx] * irrep[xsg_indices_mapping[table[a0_idx, a0_idx]]]\n                a0_lower = np.eye(dim, dtype=np.complex_)\n            corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)\n            corep[xsg_indices, :dim, :dim] = irrep\n            corep[xsg_indices, dim:, dim:] = lower\n            corep_a0 = np.zeros((2 * dim, 2 * dim), dtype=np.complex_)\n            corep_a0[:dim, dim:] = a0_upper\n            corep_a0[dim:, :dim] = a0_lower\n            corep[a0u]")))
g("x_co_fs_dup", ("corep.py", "get_corep_spinor_factor_system",
  ("        unitary_rotation = get_spinor_unitary_rotation(lattice, rotation)\n        if time_reversal == 1:\n            unitary_rotations[i] = unitary_rotation @ time_reversal_matrix\n            anti_linear[i] = True\n        else:\n            unitary_rotations[i] = unitary_rotation\n            anti_linear[i] = False\n", "        unitary_rotations[i] = get_spinor_unitary_rotation(lattice, rotation)\n        anti_linear[i] = time_reversal == 1\n        if anti_linear[i]:\n            unitary_rotations[i] = unitary_rotations[i] @ time_reversal_matrix\n")))
g("x_co_fs_act", ("corep.py", "+", '''
def _compose(ui, uj, ui_is_antilinear):
    return ui @ (np.conj(uj) if ui_is_antilinear else uj)
'''), ("corep.py", "get_corep_spinor_factor_system",
  ("            if ai:\n                uiuj = ui @ np.conj(uj)\n            else:\n                uiuj = ui @ uj\n", "            uiuj = _compose(ui, uj, ai)\n")))
# ---------------------------------------------------------------- tensor, transform, utils, pointgroup
g("x_te_couple", ("tensor.py", "+", '''
def _couple(tensor_basis, tensor_irrep, vector_basis, vector_irrep, irrep, atol):
    """Return basis vectors of a product space transforming as irrep."""
    direct_rep = get_direct_product(tensor_irrep, vector_irrep)
    shape = (irrep.shape[1], tensor_irrep.shape[1], vector_irrep.shape[1])
    coupled = []
    for coeff in project_to_irrep(direct_rep, irrep, atol=atol):
        coupled.append(np.einsum("ijk,j...,ka->i...a", coeff.reshape(shape), tensor_basis, vector_basis, optimize="greedy"))
    return coupled
'''), ("tensor.py", "get_symmetry_adapted_tensors",
  ("            dim_tensor = tensor_irrep.shape[1]\n            dim_vector = vector_irrep.shape[1]\n            direct_rep = get_direct_product(tensor_irrep, vector_irrep)\n            for irrep in irreps:\n                dim_irrep = irrep.shape[1]\n                decomposed = project_to_irrep(direct_rep, irrep, atol=atol)\n                for coeff in decomposed:\n                    coeff = coeff.reshape(dim_irrep, dim_tensor, dim_vector)\n                    new_basis = np.einsum('ijk,j...,ka->i...a', coeff, tensor_basis, vector_basis, optimize='greedy')\n                    next_all_tensor_basis.append((new_basis, irrep))\n", "            for irrep in irreps:\n                for new_basis in _couple(tensor_basis, tensor_irrep, vector_basis, vector_irrep, irrep, atol):\n                    next_all_tensor_basis.append((new_basis, irrep))\n")))
g("x_te_filter", ("tensor.py", "+", '''
def _is_identity_irrep(irrep):
    if irrep.shape[1] != 1:
        return False
    return is_equivalent_irrep(get_character(irrep), np.ones(irrep.shape[0]))
'''), ("tensor.py", "get_symmetry_adapted_tensors",
  ("    identity_character = np.ones((order,))\n    tensors = []\n    for basis, irrep in all_tensor_basis:\n        if irrep.shape[1] > 1:\n            continue\n        character = get_character(irrep)\n        if is_equivalent_irrep(character, identity_character):\n            tensors.append(basis[0, ...])\n    return tensors", "    return [basis[0] for basis, irrep in all_tensor_basis if _is_identity_irrep(irrep)]")))
g("x_te_symmetrize", ("tensor.py", "+", '''
def _symmetrize(tensor):
    ret = np.zeros_like(tensor)
    for perm in permutations(range(tensor.ndim)):
        ret += np.transpose(tensor, axes=perm)
    return ret
'''), ("tensor.py", "apply_intrinsic_symmetry",
  ("        rank = len(coeff.shape)\n        perms = list(permutations(range(rank)))\n        sym_tensor = np.zeros_like(coeff)\n        coeff = coeff / np.linalg.norm(coeff)\n        for perm in perms:\n            sym_tensor += np.transpose(coeff, axes=perm)\n", "        sym_tensor = _symmetrize(coeff / np.linalg.norm(coeff))\n")))
g("x_te_flat", ("tensor.py", "apply_intrinsic_symmetry",
  ("        if len(list_sym_basis) > 0 and grassmann_distance(sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)) < 0.5:\n            continue\n        list_sym_basis.append(sym_tensor.reshape(1, -1))", "        row = sym_tensor.reshape(1, -1)\n        if list_sym_basis:\n            if grassmann_distance(row, np.concatenate(list_sym_basis, axis=0)) < 0.5:\n                continue\n        list_sym_basis.append(row)")))
g("x_tr_conj", ("transform.py", "transform_symmetry_and_kpoint",
  ("    transformed_rotations = np.array([pinv @ rotation @ transformation_matrix for rotation in rotations])\n    transformed_rotations = np.around(transformed_rotations).astype(int)\n    transformed_translations = np.array([pinv @ translation for translation in translations])\n    transformed_kpoint = transformation_matrix.T @ kpoint\n    return (transformed_rotations, transformed_translations, transformed_kpoint)", "    new_rotations = []\n    new_translations = []\n    for rotation, translation in zip(rotations, translations):\n        new_rotations.append(pinv @ rotation @ transformation_matrix)\n        new_translations.append(pinv @ translation)\n    return (np.around(np.array(new_rotations)).astype(int), np.array(new_translations), np.dot(kpoint, transformation_matrix))")))
g("x_uq_key", ("transform.py", "+", '''
def _operation_key(rotation, time_reversal=None):
    key = ndarray2d_to_integer_tuple(rotation)
    if time_reversal is None:
        return key
    return (key, bool(time_reversal))
'''), ("transform.py", "unique_primitive_symmetry",
  ("        rotation_int = ndarray2d_to_integer_tuple(rotation)\n        if time_reversals is not None:\n            rotation_int = (rotation_int, bool(time_reversals[i]))\n", "        rotation_int = _operation_key(rotation, None if time_reversals is None else time_reversals[i])\n")))
g("x_uq_append", ("transform.py", "unique_primitive_symmetry",
  ("    mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]\n", "    mapping_to_primitive_symmetry = []\n"),
  ("        try:\n            j = rotations_int.index(rotation_int)\n            mapping_to_primitive_symmetry[i] = j\n        except ValueError:\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1\n            rotations_int.append(rotation_int)\n", "        if rotation_int not in rotations_int:\n            rotations_int.append(rotation_int)\n            unique_rotations.append(rotation)\n            unique_translations.append(np.remainder(translation, 1))\n        mapping_to_primitive_symmetry.append(rotations_int.index(rotation_int))\n")))
g("x_cen_matrices", ("transform.py", "+", '''
CENTERING_MATRICES = {
    "P": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "A": [[1, 0, 0], [0, 1 / 2, -1 / 2], [0, 1 / 2, 1 / 2]],
    "B": [[1 / 2, 0, -1 / 2], [0, 1, 0], [1 / 2, 0, 1 / 2]],
    "C": [[1 / 2, 1 / 2, 0], [-1 / 2, 1 / 2, 0], [0, 0, 1]],
    "I": [[-1 / 2, 1 / 2, 1 / 2], [1 / 2, -1 / 2, 1 / 2], [1 / 2, 1 / 2, -1 / 2]],
    "F": [[0, 1 / 2, 1 / 2], [1 / 2, 0, 1 / 2], [1 / 2, 1 / 2, 0]],
}
'''), ("transform.py", "get_primitive_transformation_matrix",
  ("    if centering == 'P':\n        return np.eye(3)\n    elif centering == 'A':\n        return np.array([[1, 0, 0], [0, 1 / 2, -1 / 2], [0, 1 / 2, 1 / 2]])\n    elif centering == 'B':\n        return np.array([[1 / 2, 0, -1 / 2], [0, 1, 0], [1 / 2, 0, 1 / 2]])\n    elif centering == 'C':\n        return np.array([[1 / 2, 1 / 2, 0], [-1 / 2, 1 / 2, 0], [0, 0, 1]])\n    elif centering == 'I':\n        return np.array([[-1 / 2, 1 / 2, 1 / 2], [1 / 2, -1 / 2, 1 / 2], [1 / 2, 1 / 2, -1 / 2]])\n    elif centering == 'F':\n        return np.array([[0, 1 / 2, 1 / 2], [1 / 2, 0, 1 / 2], [1 / 2, 1 / 2, 0]])\n    raise ValueError('Unreachable!')", "    if centering not in CENTERING_MATRICES:\n        raise ValueError('Unreachable!')\n    return np.array(CENTERING_MATRICES[centering], dtype=float)")))
g("x_cen_rhomb", ("transform.py", "get_primitive_transformation_matrix",
  ("np.array([[2 / 3, -1 / 3, -1 / 3], [1 / 3, 1 / 3, -2 / 3], [1 / 3, 1 / 3, 1 / 3]])", "np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3")))
g("x_cry_bounds", ("transform.py", "get_crystal_system",
  ("    for csystem, (lb, ub) in crystal_system_range.items():\n        if lb <= hall_number and hall_number <= ub:\n            return csystem\n", "    for csystem, bounds in crystal_system_range.items():\n        if bounds[0] <= hall_number <= bounds[1]:\n            return csystem\n")))
g("x_gcen_idx", ("transform.py", "get_centering",
  ("    if hall_symbol[0] == '-':\n        return hall_symbol[1]\n    else:\n        return hall_symbol[0]", "    offset = 1 if hall_symbol[0] == '-' else 0\n    return hall_symbol[offset]")))
g("x_gr_helper", ("utils.py", "+", '''
def _column_orthonormal(basis, skip):
    if skip:
        return basis.T
    q, _ = np.linalg.qr(np.transpose(basis))
    return q
'''), ("utils.py", "grassmann_distance",
  ("    if skip_orthonormalization:\n        col_orthonormal_basis1 = basis1.T\n        col_orthonormal_basis2 = basis2.T\n    else:\n        col_orthonormal_basis1 = np.linalg.qr(np.transpose(basis1))[0]\n        col_orthonormal_basis2 = np.linalg.qr(np.transpose(basis2))[0]\n", "    col_orthonormal_basis1 = _column_orthonormal(basis1, skip_orthonormalization)\n    col_orthonormal_basis2 = _column_orthonormal(basis2, skip_orthonormalization)\n")))
g("x_gr_raise", ("utils.py", "grassmann_distance",
  ("    if ord == 'min':\n        distance = ", "    if ord == 'min':\n        return "), ("    elif ord == 'projection':\n        distance = ", "    if ord == 'projection':\n        return "), ("    else:\n        raise ValueError(f'Unknown type of Grassmann distance: {ord}')\n    return distance", "    raise ValueError(f'Unknown type of Grassmann distance: {ord}')")))
g("x_nroot", ("utils.py", "nroot",
  ("    angle = np.angle(root)\n    angle -= np.rint(angle * n / (2 * np.pi)) * 2 * np.pi / n\n", "    angle = np.angle(root)\n    step = 2 * np.pi / n\n    angle = angle - np.rint(angle / step) * step\n")))
g("x_int_tuple", ("utils.py", "ndarray2d_to_integer_tuple",
  ("    array_t = tuple(map(tuple, array_int.tolist()))\n    return array_t", "    return tuple((tuple(row) for row in array_int.tolist()))")))
g("x_mode_recursive", ("utils.py", "mode_dot",
  ("    for axis in range(len(list_matrix)):\n        ret = _mode_dot(ret, list_matrix[axis], axis)\n", "    for axis, matrix in enumerate(list_matrix):\n        ret = _mode_dot(ret, matrix, axis)\n")))
g("x_pg_match", ("pointgroup.py", "+", '''
def _match(matched, std_rotations):
    """Return mapping from standard rotations, or None if some is missing."""
    mapping = []
    for ri in std_rotations:
        if ri not in matched:
            return None
        mapping.append(matched.index(ri))
    return mapping
'''), ("pointgroup.py", "get_pointgroup_chain_generators",
  ("        success = True\n        mapping = [-1 for _ in range(order)]\n        for i, ri in enumerate(std_rotations):\n            try:\n                j = matched.index(ri)\n            except ValueError:\n                success = False\n                break\n            mapping[i] = j\n        if success:\n            generators = get_generators(pg_symbol, idx)\n            return [mapping[g] for g in generators]\n", "        mapping = _match(matched, std_rotations)\n        if mapping is not None:\n            return [mapping[g] for g in get_generators(pg_symbol, idx)]\n")))
g("x_pg_gen", ("pointgroup.py", "_get_generators",
  ("    if pg_symbol == '1':\n        return (None, None, gens)\n    (next_pg_symbol, next_idx), generator = pg_solvable_chain[pg_symbol][idx]\n    gens.append(generator)\n    return _get_generators(next_pg_symbol, next_idx, gens)", "    while pg_symbol != '1':\n        (pg_symbol, idx), generator = pg_solvable_chain[pg_symbol][idx]\n        gens.append(generator)\n    return (None, None, gens)")))

if __name__ == "__main__":
    main(R, sys.argv[1:])
