import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
S="src/spgrep/"
p("C01","Small representations obey the space-group multiplication law",
 "For every crystal symmetry (primitive or centred, symmorphic or not) and every k-vector, the matrices returned for the little group multiply as the operations do, including the phase exp(-2*pi*i*k.t) for every lattice translation t that a product leaves behind, with k taken as given (never reduced modulo a reciprocal lattice vector). The law holds for each supported construction method and in the setting (conventional or primitive) in which the operations are reported, and the library's own representation test accepts exactly such sets of matrices.",
 ["inputs","configurations"],"all space-group symmetries in any setting and origin, all k-vectors including components outside [0,1), both methods",
 "Tests sample a few Hall numbers and special k-points; the phase depends on every pair of operations, every translation part and every k.",
 [S+"core.py",S+"irreps.py",S+"group.py",S+"representation.py",S+"transform.py"],
 [("factor system of a little group","src/spgrep/group.py:get_factor_system_from_little_group"),("phase of small representations","src/spgrep/irreps.py:enumerate_small_representations"),("centring phases","src/spgrep/core.py:_adjust_phase_for_centering_translations"),("representation test","src/spgrep/representation.py:check_spacegroup_representation")])
p("C02","Enumerations return every irrep exactly once",
 "Every enumeration of irreps (ordinary, projective, small, spinor) either returns a complete list of pairwise inequivalent irreducible representations, for which the sum of squared dimensions equals the group order, or signals failure (an error, or a warning with an empty list); it never returns a partial list or duplicates. This holds for both construction methods.",
 ["inputs","configurations"],"all finite crystallographic groups, factor systems, k-vectors and methods",
 "A test compares counts for listed groups; the guard and the equivalence test must be right for every group and numerically unlucky draw.",
 [S+"irreps.py",S+"core.py",S+"pointgroup.py",S+"representation.py"],
 [("enumeration with final count check","src/spgrep/irreps.py:enumerate_unitary_irreps"),("random-matrix decomposition","src/spgrep/irreps.py:_get_irreps_from_matrix"),("induction along a solvable chain","src/spgrep/irreps.py:enumerate_unitary_irreps_from_solvable_group_chain"),("equivalence by characters","src/spgrep/irreps.py:is_equivalent_irrep")])
p("C03","Options mean the same at every entry point",
 "Each option (construction method, real representations, relative and absolute tolerances, number of random trials, symmetry tolerance) keeps its documented default, is honoured by the entry point that accepts it, and reaches every inner step it governs unchanged. Unknown method names are rejected.",
 ["inputs","configurations"],"all combinations of options at every public function",
 "Tests run almost only defaults; a dropped or swapped option shows only for non-default values on inputs where the tolerance matters.",
 [S+"core.py",S+"irreps.py",S+"spinor.py",S+"corep.py",S+"tensor.py"],
 [("crystal-level entry points","src/spgrep/core.py"),("dispatch on the method","src/spgrep/irreps.py:enumerate_unitary_irreps"),("tensor options","src/spgrep/tensor.py:get_symmetry_adapted_tensors")])
p("C04","Unsupported inputs are rejected, supported ones are not",
 "Inputs outside a function's domain (non-primitive operations where primitive ones are required, operations that do not form a group, unknown settings or point groups, unknown options, failed searches for irreps) end in the documented error or warning. Inputs inside the domain, including anti-translations of type-IV magnetic groups, are never rejected by such a guard.",
 ["inputs"],"every input on either side of every guard",
 "The tests exercise hardly any guard; an error constructed but never raised, or a guard with the wrong condition, passes them.",
 [S+"core.py",S+"group.py",S+"pointgroup.py",S+"transform.py",S+"irreps.py",S+"spinor.py"],
 [("primitive-cell guard","src/spgrep/core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry"),("closure of the operations","src/spgrep/group.py:get_cayley_table"),("table matching","src/spgrep/pointgroup.py:get_pointgroup_chain_generators")])
p("C05","The little group is exactly the stabiliser of k, in input order",
 "The operations reported for a k-vector are exactly those that leave k invariant up to a reciprocal lattice vector (with time reversal inverting k), in the order of the input, and the reported indices point at those operations in the input list. Equivalence of k-vectors is decided by a tolerance on the distance to the nearest integer vector.",
 ["inputs"],"all symmetry groups (with or without time reversal), k-vectors and tolerances",
 "Tests use a handful of k-points; zone-boundary, slightly perturbed and time-reversed cases are outside them.",
 [S+"group.py",S+"core.py",S+"corep.py"],
 [("little group","src/spgrep/group.py:get_little_group"),("mapping composed with primitive mapping","src/spgrep/core.py:_adjust_phase_for_centering_translations")])
p("C06","All per-operation outputs share one operation index",
 "In every result, representation matrices, factor systems, spin rotations, anti-linear flags and index mappings refer to the operations by the same position: entry i of each belongs to operation mapping[i] of the reported (conventional or primitive) list. This also holds after reduction to the primitive cell and expansion back to the conventional one.",
 ["inputs","configurations"],"all crystals, centrings, k-vectors and magnetic or nonmagnetic inputs",
 "Tests use few centred cells; a permuted or wrongly expanded output shows only where the two lists differ in order or length.",
 [S+"core.py",S+"transform.py",S+"spinor.py",S+"corep.py"],
 [("expansion to the conventional cell","src/spgrep/core.py:_adjust_phase_for_centering_translations"),("reduction","src/spgrep/transform.py:unique_primitive_symmetry"),("spinor outputs","src/spgrep/core.py:get_spacegroup_spinor_irreps")])
p("C07","Spin rotations lift the point operations to SU(2) consistently",
 "For every lattice and operation the returned spin matrix is the SU(2) rotation by the Cartesian rotation angle about the Cartesian axis of the proper part of the operation, and the returned multipliers are exactly the signs by which the products of these matrices differ from the matrix of the product operation. Spinor representations obey these multipliers combined with the translation phases.",
 ["inputs"],"all lattices (including non-orthogonal ones), all crystallographic point operations, all pairs of operations",
 "Tests sample some point groups on few lattices; sign choices depend on each pair of operations and on the axis branch for angle pi.",
 [S+"spinor.py",S+"core.py"],
 [("angle and axis","src/spgrep/spinor.py:get_rotation_angle_and_axis"),("SU(2) matrix","src/spgrep/spinor.py:get_spinor_unitary_rotation"),("multipliers","src/spgrep/spinor.py:get_spinor_factor_system"),("spinor small representations","src/spgrep/spinor.py:enumerate_spinor_small_representations")])
p("C08","Co-representations obey the anti-unitary multiplication law",
 "For magnetic groups, every returned co-representation multiplies as the operations do, with the matrix to the right of an anti-unitary operation complex-conjugated, up to the returned multipliers and translation phases; anti-linear flags mark exactly the operations with time reversal. The type indicator returned for each co-representation (1, -1, 0) is the one of the Wigner criterion and decides whether the irrep of the unitary subgroup appears once, doubled, or with its conjugate partner.",
 ["inputs"],"all magnetic symmetry groups of types I-IV, k-vectors and lattices",
 "Tests cover a few magnetic groups and mostly check dimensions at k=0.",
 [S+"corep.py",S+"core.py",S+"group.py"],
 [("small co-representations","src/spgrep/corep.py:enumerate_spinor_small_corepresentations"),("multipliers with time reversal","src/spgrep/corep.py:get_corep_spinor_factor_system"),("maximal unitary subgroup","src/spgrep/group.py:decompose_by_maximal_space_subgroup")])
p("C09","Results depend only on the arguments",
 "Calling any function twice with equal arguments, in any order with other calls and in any process, gives identical results. No function draws from an unseeded or shared random source, keeps state between calls, or alters library tables or process-wide settings.",
 ["histories","schedules","inputs"],"all sequences and interleavings of calls, all processes",
 "A test run is one history with one state of the global random generator; carried-over state or an unseeded draw shows only in others.",
 [S+"irreps.py",S+"representation.py",S+"pointgroup.py",S+"core.py"],
 [("seeded generators","src/spgrep/irreps.py:enumerate_unitary_irreps_from_regular_representation"),("seeded generators","src/spgrep/representation.py:get_intertwiner"),("tables","src/spgrep/pointgroup.py:pg_dataset")])
p("C10","Arguments are never modified",
 "No public function changes an array, list or other object passed to it, nor any object reachable from it, except the two helpers that round a representation in place. In particular the rotations, translations, k-vector, representations, bases and tensors passed in compare equal before and after every call.",
 ["inputs","histories"],"all calls of public functions, any array type, contiguous or not",
 "Tests build fresh inputs per call and do not compare them afterwards.",
 [S+"core.py",S+"irreps.py",S+"tensor.py",S+"representation.py",S+"group.py"],
 [("in-place rounding confined to fresh arrays","src/spgrep/irreps.py:purify_irrep_value"),("element stores","src/spgrep/core.py")])
p("C12","Physically irreducible representations follow the reality type",
 "When real representations are requested for groups whose ordinary irreps are considered at equivalent k and -k, every result is real-valued, obeys the same multiplication law, and has the dimension fixed by the Frobenius-Schur type: d for real type, 2d for pseudo-real and for complex type, where each conjugate pair of complex irreps contributes exactly one. The reported indicator is (1/|G|) times the sum of the characters of squared operations, rounded to 1, -1 or 0.",
 ["inputs","configurations"],"all groups, irreps of each reality type, both methods",
 "The tests check realness for a few groups; pseudo-real and complex types and unlucky intertwiners are rare in them.",
 [S+"irreps.py",S+"representation.py",S+"core.py"],
 [("real form","src/spgrep/irreps.py:get_physically_irrep"),("indicator","src/spgrep/representation.py:frobenius_schur_indicator"),("pairing of conjugates","src/spgrep/irreps.py:enumerate_small_representations")])
p("C13","Symmetry-adapted tensors span exactly the invariant tensors",
 "The tensors returned for a representation and rank are invariant under simultaneous action of every operation on all indices, are linearly independent, and span all such tensors. Imposing intrinsic symmetry projects each tensor onto the part invariant under all permutations of its indices and drops only those that vanish or depend on tensors already kept.",
 ["inputs"],"all unitary representations, groups, ranks and tolerances",
 "Tests count components for a few elastic and piezoelectric cases.",
 [S+"tensor.py",S+"representation.py"],
 [("projection to the identity representation","src/spgrep/tensor.py:get_symmetry_adapted_tensors"),("index permutations","src/spgrep/tensor.py:apply_intrinsic_symmetry"),("direct products","src/spgrep/representation.py:get_direct_product")])
p("C14","Representation analysis tools follow their defining formulas",
 "Regular representations permute operations by left multiplication (times the multiplier), characters are traces, equivalence is unit character overlap, direct products are Kronecker products operation by operation, intertwiners satisfy A U = U B for every operation and are normalised unitary, and projections onto an irrep return orthonormal bases that transform with exactly that irrep. Tests for unitarity and for the homomorphism property accept exactly such matrices.",
 ["inputs"],"all (projective) representations of finite groups, equivalent or not",
 "Unit tests use a few small representations in which index orders and conjugations often coincide.",
 [S+"representation.py",S+"irreps.py",S+"utils.py"],
 [("regular representation","src/spgrep/representation.py:get_projective_regular_representation"),("intertwiner","src/spgrep/representation.py:get_intertwiner"),("projection","src/spgrep/representation.py:project_to_irrep"),("subspace distance","src/spgrep/utils.py:grassmann_distance")])
p("C15","Changes of basis and centrings follow the crystallographic convention",
 "Transforming operations and k-vector with P gives (P^-1 R P, P^-1 w) and P^T k, exactly integer rotations. For each of the 530 settings the primitive basis is the documented one for its centring and crystal system, and crystal-level functions use the transformation from the given cell to that primitive cell.",
 ["inputs"],"all 530 settings, all transformation matrices with integer images, all input cells",
 "Tests check some settings; A/B/C/I/F/R and non-standard input cells differ only in rarely used branches.",
 [S+"transform.py",S+"core.py"],
 [("basis transformation","src/spgrep/transform.py:transform_symmetry_and_kpoint"),("primitive basis","src/spgrep/transform.py:get_primitive_transformation_matrix"),("crystal system ranges","src/spgrep/transform.py:get_crystal_system")])
p("C16","Group utilities agree with the group axioms",
 "The multiplication table of a closed set of operations (with or without time reversal) contains at (i,j) the index of the product of i and j; identity, inverses and orders derived from it are those of the group. Closure tests and the cocycle test accept exactly closed sets and exactly 2-cocycles, over all pairs and triples of operations.",
 ["inputs"],"all finite groups of integer matrices, any ordering of the operations, all factor systems",
 "Tests use some groups in standard order; errors in index order or skipped elements need non-abelian groups or unusual orders.",
 [S+"group.py",S+"representation.py"],
 [("multiplication table","src/spgrep/group.py:get_cayley_table"),("inverse and order","src/spgrep/group.py:get_inverse_index"),("cocycle test","src/spgrep/group.py:check_cocycle_condition")])
p("C17","Reported multipliers are those of the reported representations",
 "Whenever a factor system is supplied or returned together with representations, the representations multiply with exactly that factor system (times translation phases), entry (i,j) belonging to the product of operation i followed on the right by operation j. Point-group functions are the k=0 case of the space-group functions.",
 ["inputs","configurations"],"all groups, factor systems, spinor and non-spinor, with and without time reversal",
 "Most tested multipliers are symmetric in i and j or trivial, so transposed, conjugated or misaligned factor systems pass.",
 [S+"core.py",S+"irreps.py",S+"spinor.py",S+"corep.py",S+"group.py"],
 [("projective enumeration","src/spgrep/irreps.py:enumerate_unitary_irreps"),("spinor multipliers","src/spgrep/spinor.py:get_spinor_factor_system"),("homomorphism test","src/spgrep/representation.py:is_representation")])
p("C18","Every crystallographic point group is matched and decomposed soundly",
 "Each of the 32 point groups, in any basis and any order of its operations, is matched with a tabulated setting, and the generators reported for it build a series of subgroups from the trivial group to the full group, each normal in the next with cyclic factor. The tabulated groups are closed, of the right type, and cover all standard settings.",
 ["inputs"],"32 point groups, all settings, bases and orderings of the input operations",
 "Tests run standard orders of listed groups; the decisive facts are about all settings in the tables and any input order.",
 [S+"pointgroup.py"],
 [("group tables","src/spgrep/pointgroup.py:pg_dataset"),("chains","src/spgrep/pointgroup.py:pg_solvable_chain"),("matching","src/spgrep/pointgroup.py:get_pointgroup_chain_generators")])
p("C19","Induction along a solvable chain yields each unitary irrep once",
 "At each step from a normal subgroup H to a larger group with cyclic factor of order p, an irrep of H that is equivalent to its conjugates extends in exactly p inequivalent ways, and an orbit of p inequivalent conjugates induces exactly one irrep; all results are unitary and obey the given factor system. The outcome does not depend on the order of the operations.",
 ["inputs"],"all solvable chains of crystallographic groups, factor systems, and operation orders",
 "Tests run the chains of the tabulated groups in standard order with few factor systems.",
 [S+"irreps.py",S+"pointgroup.py",S+"utils.py"],
 [("induction","src/spgrep/irreps.py:enumerate_unitary_irreps_from_solvable_group_chain"),("roots","src/spgrep/utils.py:nroot"),("intertwiner","src/spgrep/representation.py:get_intertwiner")])
p("C20","Reduction to primitive operations keeps one representative and a true map",
 "Reducing operations to those distinct up to translations keeps, for each distinct point operation (and time-reversal part when given), the first one in the input with its translation reduced into [0,1), in order of appearance. The returned map sends every input operation to the position of its representative.",
 ["inputs"],"all lists of symmetry operations, in any order, with centring translations and anti-translations",
 "Tests use lists in the library's default order, where wrong positions can coincide with right ones.",
 [S+"transform.py",S+"core.py"],
 [("reduction","src/spgrep/transform.py:unique_primitive_symmetry"),("use in crystal-level functions","src/spgrep/core.py:get_spacegroup_irreps")])
p("C21","Magnetic groups split into the right unitary subgroup and coset",
 "A magnetic group without anti-unitary operations is reported as such (no coset representative); otherwise the unitary operations and the anti-unitary operations are listed by index, and the representative is an anti-unitary operation of the group. The listed subgroup is exactly the set of operations without time reversal, and entry i of the coset list is its i-th member times the representative.",
 ["inputs"],"all magnetic groups of types I-IV, any operation order",
 "Tests do not cover groups in which the first operations are anti-unitary or absent.",
 [S+"group.py",S+"corep.py"],
 [("decomposition","src/spgrep/group.py:decompose_by_maximal_space_subgroup")])
p("C22","Small numeric helpers compute what they are named for",
 "Primality, n-th roots, integrality of arrays, conversion to integer tuples, subspace distance and tensor-matrix contraction return the mathematically defined values for every input in their domain. The subspace distance is zero exactly for equal subspaces and does not depend on the bases chosen.",
 ["inputs"],"all integers, complex numbers, arrays, subspaces",
 "Tests use a few values; boundary values (1, 4, 9, half-integers, non-orthonormal bases) decide.",
 [S+"utils.py"],
 [("primality and roots","src/spgrep/utils.py:is_prime"),("subspace distance","src/spgrep/utils.py:grassmann_distance"),("contraction","src/spgrep/utils.py:mode_dot")])
p("C23","Rounding of matrix entries never changes a representation beyond tolerance",
 "Entries are replaced only by exact values that lie within the given absolute tolerance of them, and all other entries are kept; results returned to the user are rounded with the tolerance the user gave. Rounding is applied after all phases and transformations have been applied to the representation.",
 ["inputs","configurations"],"all matrices and tolerances",
 "Tests compare with loose tolerances, which hide a wrong target value or tolerance.",
 [S+"irreps.py",S+"core.py"],
 [("complex values","src/spgrep/irreps.py:purify_irrep_value"),("real values","src/spgrep/irreps.py:purify_real_irrep_value")])
p("C25","Crystal-level and symmetry-level entry points agree",
 "For every crystal, the crystal-level functions return what the symmetry-level functions return for the crystal's detected operations transformed to the primitive cell, expanded back with the phases of the centring translations; the reciprocal lattice given by the user only changes the basis in which k is read. Nonmagnetic, magnetic, spinor and non-spinor variants follow the same composition.",
 ["inputs","configurations"],"all crystals, reciprocal bases, k-vectors and variants",
 "Tests call each entry point on separate samples and never compare them on centred cells with non-default reciprocal bases.",
 [S+"core.py",S+"transform.py"],
 [("crystal-level functions","src/spgrep/core.py:get_spacegroup_irreps"),("spinor variant","src/spgrep/core.py:get_spacegroup_spinor_irreps")])
# not applicable
p("C30","Decomposition is robust against numerically close eigenvalues",
 "The random-matrix method never merges two different irreps because of accidentally close eigenvalues and never splits one because of rounding, for every group and tolerance. Where it cannot separate them it retries or raises.",
 ["inputs"],"all groups, tolerances and random draws","The seeded draws of the tests are separated by luck.",
 [S+"irreps.py"],[("eigenvalue grouping","src/spgrep/irreps.py:_get_irreps_from_matrix")])
p("C31","Numerical accuracy of results",
 "Returned matrices satisfy unitarity and the multiplication law to within the requested absolute tolerance in floating-point arithmetic, for every lattice and k-vector. Accuracy does not degrade along long chains of intermediate steps.",
 ["inputs"],"all inputs, in floating point","Tests check with fixed tolerances on samples.",
 [S+"irreps.py",S+"spinor.py"],[("normalisation","src/spgrep/representation.py:get_intertwiner")])
p("C32","Symmetry detection is independent of the description of the crystal",
 "The detected symmetry of a crystal does not depend on the choice of cell, origin, atom order or small displacements below the symmetry tolerance. Magnetic symmetry is detected consistently with the moments given.",
 ["inputs"],"all equivalent descriptions of a crystal","Tests use single descriptions.",
 [S+"core.py"],[("call of the symmetry finder","src/spgrep/core.py:get_spacegroup_irreps")])
p("C33","Enumeration terminates within its trial budget for every group",
 "Every call terminates within the given number of random trials and in time polynomial in the group order. Failed trials end in an error, not in a loop.",
 ["inputs"],"all groups and budgets","A test run shows termination only for its samples.",
 [S+"irreps.py",S+"representation.py"],[("trial loops","src/spgrep/irreps.py:decompose_representation")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
NA={
"C30":"Quantifies over gaps between floating-point eigenvalues of a seeded random matrix; no static argument in reach bounds them for every group.",
"C31":"Rounding-error bounds of eigen-decompositions and inverse square roots for every input are runtime quantities; the analysis treats arithmetic as exact.",
"C32":"Decided inside spglib (compiled C, outside this repository); the Python source only passes the cell and tolerances on (which C03/C25 decide).",
"C33":"Success within the trial budget depends on random draws and eigenvalue gaps; the bounded trial loops and the error at their end are decided under C02/C04, the rest is not static.",
}
TECH={"C09":"interprocedural effect analysis (random sources, module state, memoisation, process settings) on the syntax tree",
"C10":"interprocedural mutation/alias analysis of parameters on the syntax tree"}
checks=[]
import sys; sys.path.insert(0,"/verif")
from sa.props import PROPS
for x in P:
    i=x["id"]
    if i in NA: continue
    ex=PROPS[i]["extra"]
    t=TECH.get(i,"value-flow term lifting of each function in the property's cone and gated value-numbering comparison with reference definitions"+("; algebraic checks of literal tables in the AST" if "tables" in ex else ""))
    note="Covers every path of the functions in the cone, for all inputs of the declared shapes, over exact arithmetic; external numpy/scipy/spglib functions are modelled or uninterpreted. Undecided obligations are reported in evidence and are not alarms. Trusts the reference definitions in spec/ and the engine in sa/."
    if i=="C09": note="Every function and module-level name is analysed; flags definite constructs only; external libraries are assumed to behave deterministically."
    if i=="C10": note="Every store, in-place method, out-argument and call in every function is analysed with parameter aliasing through views; unresolvable aliases are not reported."
    checks.append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough","technique":t,"level":"other","level_note":note})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"Static analysis only: check.py reads /repo/src/spgrep on every run and never imports or executes it. See DESIGN.md."},open("/verif/MANIFEST.json","w"),indent=1)
assert {x["id"] for x in P}-set(NA)==set(PROPS)
