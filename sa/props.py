"""Which functions and analyses decide which property (the cone of code a property depends on)."""

ALL = ("value", "raise", "mutation", "warn")
V = ("value",)
VR = ("value", "raise")

CORE_SG = ["get_spacegroup_irreps", "get_spacegroup_irreps_from_primitive_symmetry"]
CORE_PG = ["get_crystallographic_pointgroup_irreps_from_symmetry"]
CORE_SPIN = [
    "get_spacegroup_spinor_irreps",
    "get_spacegroup_spinor_irreps_from_primitive_symmetry",
    "get_crystallographic_pointgroup_spinor_irreps_from_symmetry",
]
ADJ = ["_adjust_phase_for_centering_translations"]
ENUM = ["enumerate_small_representations", "enumerate_unitary_irreps"]
RANDOM = ["enumerate_unitary_irreps_from_regular_representation", "_get_irreps_from_matrix", "decompose_representation"]
NETO = ["enumerate_unitary_irreps_from_solvable_group_chain"]
SPIN = ["enumerate_spinor_small_representations", "get_spinor_factor_system", "get_spinor_unitary_rotation", "get_rotation_angle_and_axis"]
COREP = ["enumerate_spinor_small_corepresentations", "get_corep_spinor_factor_system"]
PURIFY = ["purify_irrep_value", "purify_real_irrep_value"]
GROUP = ["get_cayley_table", "get_identity_index", "get_inverse_index", "get_order"]
PG = ["get_pointgroup_chain_generators", "get_generators", "_get_generators"]
CHAR = ["is_equivalent_irrep", "get_character"]
TRANSFORM = ["transform_symmetry_and_kpoint", "unique_primitive_symmetry", "get_primitive_transformation_matrix", "get_crystal_system", "get_centering"]
INTNUM = ["ndarray2d_to_integer_tuple", "is_integer_array"]

PROPS: dict = {}


def prop(pid, fns, aspects=V, extra=(), **over):
    d = {f: tuple(aspects) for f in fns}
    d.update(over)
    PROPS[pid] = {"functions": d, "extra": tuple(extra)}


# broad guarantees
prop("C01", CORE_SG + ADJ + ENUM + RANDOM + NETO + CHAR + PURIFY + TRANSFORM + INTNUM
     + ["get_factor_system_from_little_group", "get_little_group", "check_spacegroup_representation", "get_cayley_table",
        "get_projective_regular_representation", "get_identity_index", "get_inverse_index", "get_order", "nroot", "get_intertwiner",
        "get_physically_irrep", "is_representation"] + PG, VR, ["tables"])
prop("C02", CORE_SG + CORE_PG + CORE_SPIN + ENUM + RANDOM + NETO + CHAR + PG
     + ["get_projective_regular_representation", "get_regular_representation", "get_cayley_table", "get_identity_index",
        "get_inverse_index", "get_order", "get_intertwiner", "nroot", "is_prime", "get_factor_system_from_little_group",
        "get_spinor_factor_system", "enumerate_spinor_small_representations"], VR, ["tables"])
prop("C03", CORE_SG + CORE_PG + CORE_SPIN + ENUM + RANDOM + ["enumerate_spinor_small_representations",
     "enumerate_spinor_small_corepresentations", "get_symmetry_adapted_tensors", "apply_intrinsic_symmetry", "project_to_irrep",
     "get_intertwiner", "get_physically_irrep", "get_little_group", "is_representation", "check_spacegroup_representation",
     "grassmann_distance"] + NETO + ADJ + PURIFY, ("value", "raise", "defaults"))
prop("C04", CORE_SG + CORE_PG + CORE_SPIN + ENUM + SPIN + COREP + GROUP + PG + TRANSFORM + RANDOM + NETO
     + ["get_symmetry_adapted_tensors", "frobenius_schur_indicator", "get_physically_irrep", "project_to_irrep", "get_intertwiner",
        "decompose_by_maximal_space_subgroup", "grassmann_distance", "get_symmetry_from_hall_number"], ("raise", "warn"))
prop("C05", CORE_SG + CORE_SPIN + ["get_little_group", "is_integer_array"] + ADJ + ["unique_primitive_symmetry", "enumerate_spinor_small_corepresentations"], VR)
prop("C06", CORE_SG + CORE_SPIN + ADJ + ["unique_primitive_symmetry", "get_little_group", "transform_symmetry_and_kpoint",
     "enumerate_spinor_small_representations", "enumerate_spinor_small_corepresentations", "get_corep_spinor_factor_system",
     "get_spinor_factor_system"], V)
prop("C07", SPIN + CORE_SPIN + ["get_cayley_table"], VR)
prop("C08", COREP + SPIN + CORE_SPIN + ["get_cayley_table", "get_little_group", "get_factor_system_from_little_group",
     "decompose_by_maximal_space_subgroup", "get_inverse_index", "get_identity_index", "enumerate_unitary_irreps", "get_intertwiner",
     "unique_primitive_symmetry", "get_character", "is_equivalent_irrep"], VR)
prop("C09", [], V, ["state"])
prop("C10", [], V, ["inputs", "mutation"])
prop("C12", ["get_physically_irrep", "frobenius_schur_indicator", "purify_real_irrep_value", "get_intertwiner"] + ENUM + CHAR + CORE_PG + CORE_SG, VR)
prop("C13", ["get_symmetry_adapted_tensors", "apply_intrinsic_symmetry", "get_direct_product", "project_to_irrep", "get_intertwiner",
     "grassmann_distance", "get_character"], VR)
prop("C14", ["get_regular_representation", "get_projective_regular_representation", "get_intertwiner", "project_to_irrep",
     "get_character", "is_equivalent_irrep", "is_unitary", "is_representation", "frobenius_schur_indicator", "get_direct_product",
     "check_spacegroup_representation", "grassmann_distance", "decompose_representation", "_get_irreps_from_matrix", "get_cayley_table"], VR)
prop("C15", TRANSFORM + ADJ + CORE_SG + ["get_spacegroup_spinor_irreps", "ndarray2d_to_integer_tuple", "get_symmetry_from_hall_number"], VR)
prop("C16", GROUP + ["is_matrix_group", "check_cocycle_condition", "decompose_by_maximal_space_subgroup", "ndarray2d_to_integer_tuple",
     "get_factor_system_from_little_group", "get_regular_representation"], VR)
prop("C17", CORE_PG + CORE_SG + CORE_SPIN + SPIN + COREP + ENUM + ["get_factor_system_from_little_group", "get_projective_regular_representation",
     "check_cocycle_condition", "is_representation", "check_spacegroup_representation"], V)
prop("C18", PG + ["ndarray2d_to_integer_tuple", "enumerate_unitary_irreps", "is_prime"], VR, ["tables"])
prop("C19", NETO + GROUP + CHAR + ["nroot", "get_intertwiner", "is_prime", "enumerate_unitary_irreps"] + PG, VR, ["tables"])
prop("C20", ["unique_primitive_symmetry", "ndarray2d_to_integer_tuple"] + ADJ + CORE_SG + ["get_spacegroup_spinor_irreps"], V)
prop("C21", ["decompose_by_maximal_space_subgroup", "enumerate_spinor_small_corepresentations", "get_little_group", "get_cayley_table"], VR)
prop("C22", ["is_prime", "nroot", "grassmann_distance", "mode_dot", "is_integer_array", "ndarray2d_to_integer_tuple",
     "get_symmetry_from_hall_number"], VR)
prop("C23", PURIFY + ["enumerate_small_representations", "enumerate_unitary_irreps", "get_physically_irrep"] + ADJ + NETO + RANDOM, VR + ("mutation",))
prop("C25", CORE_SG + CORE_PG + CORE_SPIN + ADJ + TRANSFORM + ["get_little_group", "enumerate_small_representations",
     "enumerate_unitary_irreps", "enumerate_spinor_small_representations", "enumerate_spinor_small_corepresentations"], V)
