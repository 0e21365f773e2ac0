"""Declared shapes and scalar domains of the functions under analysis (the typing environment of the lifter)."""
from .lift import Sig

IRR = "list[complex[n,$d,$d]]"

SIGS = {
    # core
    "get_spacegroup_irreps": Sig(
        "lattice:real[3,3], positions:real[a,3], numbers:int[a], kpoint:real[3], method:str, "
        "reciprocal_lattice:real[3,3]?, symprec:real, rtol:real, atol:real, max_num_random_generations:int",
        "(list[complex[n,$d,$d]], int[m,3,3], real[m,3], int[n])",
    ),
    "get_spacegroup_irreps_from_primitive_symmetry": Sig(
        "rotations:int[n,3,3], translations:real[n,3], kpoint:real[3], real:bool, method:str, rtol:real, atol:real, "
        "max_num_random_generations:int",
        "(list[complex[m,$d,$d]], int[m])",
    ),
    "get_crystallographic_pointgroup_irreps_from_symmetry": Sig(
        "rotations:int[n,3,3], real:bool, method:str, rtol:real, atol:real, max_num_random_generations:int", IRR
    ),
    "get_spacegroup_spinor_irreps": Sig(
        "lattice:real[3,3], positions:real[a,3], numbers:int[a], magmoms:real[a]?, kpoint:real[3]?, method:str, "
        "reciprocal_lattice:real[3,3]?, symprec:real, rtol:real, atol:real, max_num_random_generations:int",
        "obj",
    ),
    "get_spacegroup_spinor_irreps_from_primitive_symmetry": Sig(
        "lattice:real[3,3], rotations:int[n,3,3], translations:real[n,3], time_reversals:bit[n]?, kpoint:real[3]?, "
        "method:str, rtol:real, atol:real, max_num_random_generations:int",
        "obj",
        variants={
            "time_reversals": (
                "(list[complex[m,$d,$d]], complex[m,m], complex[m,2,2], int[m])",
                "(list[complex[m,$d,$d]], list[int], complex[m,m], complex[m,2,2], bool[m], int[m])",
            )
        },
    ),
    "get_crystallographic_pointgroup_spinor_irreps_from_symmetry": Sig(
        "lattice:real[3,3], rotations:int[n,3,3], time_reversals:bit[n]?, method:str, rtol:real, atol:real, "
        "max_num_random_generations:int",
        "obj",
    ),
    "_adjust_phase_for_centering_translations": Sig(
        "prim_translations:real[m,3], prim_kpoint:real[3], uniq_prim_translations:real[n,3], mapping_to_prim:int[m], "
        "prim_irreps:list[complex[q,$d,$d]], mapping_prim_little_group:int[q], atol:real",
        "(list[complex[k,$d,$d]], int[k], list[int])",
    ),
    # corep
    "enumerate_spinor_small_corepresentations": Sig(
        "lattice:real[3,3], little_rotations:int[n,3,3], little_translations:real[n,3], little_time_reversals:bit[n], "
        "kpoint:real[3], method:str, rtol:real, atol:real, max_num_random_generations:int",
        "(list[complex[n,$d,$d]], list[int], complex[n,n], complex[n,2,2], bool[n])",
    ),
    "get_corep_spinor_factor_system": Sig(
        "lattice:real[3,3], rotations:int[n,3,3], time_reversals:bit[n]", "(complex[n,n], complex[n,2,2], bool[n])"
    ),
    # group
    "get_cayley_table": Sig("rotations:int[n,3,3], time_reversals:bit[n]?", "int[n,n]", raises=("ValueError",)),
    "get_identity_index": Sig("table:int[n,n]", "nat"),
    "get_inverse_index": Sig("table:int[n,n], idx:nat", "nat"),
    "get_order": Sig("table:int[n,n], idx:nat", "nat"),
    "is_matrix_group": Sig("rotations:int[n,3,3]", "bool"),
    "get_factor_system_from_little_group": Sig(
        "little_rotations:int[n,3,3], little_translations:real[n,3], kpoint:real[3], little_time_reversals:bit[n]?",
        "complex[n,n]",
    ),
    "get_little_group": Sig(
        "rotations:int[n,3,3], translations:real[n,3], kpoint:real[3], atol:real, time_reversals:bit[n]?",
        "(int[m,3,3], real[m,3], int[m])",
    ),
    "check_cocycle_condition": Sig("rotations:int[n,3,3], factor_system:complex[n,n]", "bool"),
    "decompose_by_maximal_space_subgroup": Sig(
        "rotations:int[n,3,3], translations:real[n,3], time_reversals:bit[n]", "(list[int], list[int], nat)"
    ),
    # irreps
    "enumerate_small_representations": Sig(
        "little_rotations:int[n,3,3], little_translations:real[n,3], kpoint:real[3], real:bool, method:str, rtol:real, "
        "atol:real, max_num_random_generations:int",
        "(list[complex[n,$d,$d]], list[int])",
    ),
    "enumerate_unitary_irreps": Sig(
        "rotations:int[n,3,3], factor_system:complex[n,n]?, real:bool, method:str, rtol:real, atol:real, "
        "max_num_random_generations:int",
        "(list[complex[n,$d,$d]], list[int])",
    ),
    "enumerate_unitary_irreps_from_regular_representation": Sig(
        "reg:complex[n,n,n], rtol:real, max_num_random_generations:int", IRR
    ),
    "decompose_representation": Sig("representation:complex[n,d0,d0], rtol:real, max_num_random_generations:int", IRR),
    "_get_irreps_from_matrix": Sig("reg:complex[n,d,d], matrix:complex[d,d], rtol:real", IRR),
    "enumerate_unitary_irreps_from_solvable_group_chain": Sig(
        "table:int[n,n], factor_system:complex[n,n], solvable_chain_generators:list[nat], atol:real, "
        "max_num_random_generations:int",
        IRR,
    ),
    "get_physically_irrep": Sig(
        "irrep:complex[n,d,d], indicator:int, atol:real, max_num_random_generations:int", "real[n,$e,$e]"
    ),
    "is_equivalent_irrep": Sig("character1:complex[n], character2:complex[n]", "bool", transparent=True),
    "purify_irrep_value": Sig("irrep:complex[n,d,d], atol:real", "complex[n,d,d]", mutates=("irrep",)),
    "purify_real_irrep_value": Sig("real_irrep:real[n,d,d], atol:real", "real[n,d,d]", mutates=("real_irrep",)),
    # pointgroup
    "get_generators": Sig("pg_symbol:str, idx:int", "list[nat]"),
    "_get_generators": Sig("pg_symbol:str, idx:int, gens:list[nat]", "obj"),
    "get_pointgroup_chain_generators": Sig("prim_rotations:int[n,3,3]", "list[nat]"),
    # representation
    "get_regular_representation": Sig("rotations:int[n,3,3]", "int[n,n,n]"),
    "get_projective_regular_representation": Sig("rotations:int[n,3,3], factor_system:complex[n,n]", "complex[n,n,n]"),
    "get_intertwiner": Sig(
        "rep1:complex[n,d,d], rep2:complex[n,d,d], atol:real, max_num_random_generations:int", "complex[d,d]"
    ),
    "get_character": Sig("representation:complex[n,d,d]", "complex[n]", transparent=True),
    "project_to_irrep": Sig(
        "representation:complex[n,d,d], irrep:complex[n2,e,e2], atol:real, max_num_trials:int", "list[complex[e,d]]"
    ),
    "is_unitary": Sig("representation:complex[n,d,d]", "bool"),
    "is_representation": Sig(
        "rep:complex[n,d,d], table:int[n,n], factor_system:complex[n,n]?, rtol:real, atol:real", "bool"
    ),
    "frobenius_schur_indicator": Sig("irrep:complex[n,d,d]", "int"),
    "check_spacegroup_representation": Sig(
        "little_rotations:int[n,3,3], little_translations:real[n,3], kpoint:real[3], rep:complex[n,d,d], "
        "spinor_factor_system:complex[n,n]?, rtol:real",
        "bool",
    ),
    "get_direct_product": Sig("rep1:complex[n,d,d1], rep2:complex[n2,e,e1]", "complex[n,de,de]"),
    # spinor
    "enumerate_spinor_small_representations": Sig(
        "lattice:real[3,3], little_rotations:int[n,3,3], little_translations:real[n,3]?, kpoint:real[3]?, method:str, "
        "rtol:real, atol:real, max_num_random_generations:int",
        "(list[complex[n,$d,$d]], complex[n,n], complex[n,2,2])",
    ),
    "get_spinor_factor_system": Sig("lattice:real[3,3], rotations:int[n,3,3]", "(complex[n,n], complex[n,2,2])"),
    "get_spinor_unitary_rotation": Sig("lattice:real[3,3], rotation:int[3,3]", "complex[2,2]"),
    "get_rotation_angle_and_axis": Sig("cart_rotation:real[3,3]", "(real, real[3])"),
    # tensor
    "get_symmetry_adapted_tensors": Sig(
        "rep:complex[n,d,d], rotations:int[n,3,3], rank:int, real:bool, atol:real", "list[any]"
    ),
    "apply_intrinsic_symmetry": Sig("tensors:list[complex[*]], atol:real", "list[any]"),
    # transform
    "transform_symmetry_and_kpoint": Sig(
        "transformation_matrix:real[3,3], rotations:int[n,3,3], translations:real[n,3], kpoint:real[3]",
        "(int[n,3,3], real[n,3], real[3])",
    ),
    "unique_primitive_symmetry": Sig(
        "rotations:int[n,3,3], translations:real[n,3], time_reversals:bit[n]?", "(int[m,3,3], real[m,3], list[nat])"
    ),
    "get_primitive_transformation_matrix": Sig("hall_number:int", "real[3,3]"),
    "get_crystal_system": Sig("hall_number:int", "str"),
    "get_centering": Sig("hall_symbol:str", "str"),
    # utils
    "is_integer_array": Sig("array:real[p,q], rtol:real, atol:real", "bool"),
    "ndarray2d_to_integer_tuple": Sig("array:real[p,q]", "obj", transparent=True),
    "get_symmetry_from_hall_number": Sig("hall_number:int", "(int[n,3,3], real[n,3])"),
    "is_prime": Sig("n:int", "bool"),
    "nroot": Sig("z:complex, n:nat", "complex", transparent=True),
    "grassmann_distance": Sig("basis1:complex[k,n], basis2:complex[l,n], ord:str, skip_orthonormalization:bool", "real"),
    "mode_dot": Sig("coeffs:complex[*], list_matrix:list[complex[m,$n]]", "any"),
}
