"""Reference definitions: public entry points."""
import numpy as np
from spglib import get_magnetic_symmetry_dataset, get_symmetry_dataset

from spgrep.corep import enumerate_spinor_small_corepresentations
from spgrep.group import get_little_group
from spgrep.irreps import enumerate_small_representations, enumerate_unitary_irreps, purify_irrep_value
from spgrep.spinor import enumerate_spinor_small_representations, get_spinor_factor_system
from spgrep.transform import (
    get_primitive_transformation_matrix,
    transform_symmetry_and_kpoint,
    unique_primitive_symmetry,
)


def get_spacegroup_irreps(
    lattice,
    positions,
    numbers,
    kpoint,
    method="Neto",
    reciprocal_lattice=None,
    symprec=1e-5,
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """Detect symmetry, go to a primitive cell, build small representations, come back."""
    if reciprocal_lattice is None:
        reciprocal_lattice = np.linalg.inv(lattice).T
    # Cartesian k . basis vectors: coefficients in the dual of lattice
    k = kpoint @ reciprocal_lattice @ np.linalg.inv(np.linalg.inv(lattice).T)

    data = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
    P = np.linalg.inv(data["transformation_matrix"]) @ get_primitive_transformation_matrix(data["hall_number"])
    prim_r, prim_t, prim_k = transform_symmetry_and_kpoint(P, data["rotations"], data["translations"], k)
    uniq_r, uniq_t, to_uniq = unique_primitive_symmetry(prim_r, prim_t)
    prim_irreps, prim_little = get_spacegroup_irreps_from_primitive_symmetry(
        uniq_r,
        uniq_t,
        prim_k,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    irreps, little, _ = _adjust_phase_for_centering_translations(
        prim_t, prim_k, uniq_t, to_uniq, prim_irreps, prim_little, atol=atol
    )
    return irreps, data["rotations"], data["translations"], little


def get_spacegroup_irreps_from_primitive_symmetry(
    rotations, translations, kpoint, real=False, method="Neto", rtol=1e-5, atol=1e-8, max_num_random_generations=4
):
    """No pure translation but lattice ones; little group; small representations."""
    for i in range(len(rotations)):
        if np.allclose(rotations[i], np.eye(3), rtol=rtol, atol=atol):
            if not np.allclose(translations[i], 0, atol=atol):
                raise ValueError("not primitive")
    little_r, little_t, little = get_little_group(rotations, translations, kpoint, atol=atol)
    irreps, _ = enumerate_small_representations(
        little_r,
        little_t,
        kpoint,
        real=real,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    return irreps, little


def get_crystallographic_pointgroup_irreps_from_symmetry(
    rotations, real=False, method="Neto", rtol=1e-5, atol=1e-8, max_num_random_generations=4
):
    """Linear irreps."""
    return enumerate_unitary_irreps(
        rotations,
        factor_system=None,
        real=real,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )[0]


def get_spacegroup_spinor_irreps(
    lattice,
    positions,
    numbers,
    magmoms=None,
    kpoint=None,
    method="Neto",
    reciprocal_lattice=None,
    symprec=1e-5,
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """As for space groups, with spin (and time reversal); every output follows one numbering."""
    if kpoint is None:
        kpoint = np.zeros(3)
    if reciprocal_lattice is None:
        reciprocal_lattice = np.linalg.inv(lattice).T
    k = kpoint @ reciprocal_lattice @ np.linalg.inv(np.linalg.inv(lattice).T)

    if magmoms is None:
        data = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
    else:
        data = get_magnetic_symmetry_dataset(cell=(lattice, positions, numbers, magmoms), symprec=symprec)
    rotations = data["rotations"]
    translations = data["translations"]
    tr = None if magmoms is None else data["time_reversals"]

    P = np.linalg.inv(data["transformation_matrix"]) @ get_primitive_transformation_matrix(data["hall_number"])
    prim_r, prim_t, prim_k = transform_symmetry_and_kpoint(P, rotations, translations, k)
    uniq_r, uniq_t, to_uniq = unique_primitive_symmetry(prim_r, prim_t, tr)

    if magmoms is None:
        prim_irreps, z, u, prim_little = get_spacegroup_spinor_irreps_from_primitive_symmetry(
            P.T @ lattice,
            uniq_r,
            uniq_t,
            kpoint=prim_k,
            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        irreps, little, back = _adjust_phase_for_centering_translations(
            prim_t, prim_k, uniq_t, to_uniq, prim_irreps, prim_little, atol=atol
        )
        return irreps, z[np.ix_(back, back)], u[back], rotations, translations, little

    uniq_tr = np.zeros(len(uniq_r), dtype=tr.dtype)
    uniq_tr[to_uniq] = tr
    prim_irreps, _, z, u, anti, prim_little = get_spacegroup_spinor_irreps_from_primitive_symmetry(
        P.T @ lattice,
        uniq_r,
        uniq_t,
        time_reversals=uniq_tr,
        kpoint=prim_k,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    irreps, little, back = _adjust_phase_for_centering_translations(
        prim_t, prim_k, uniq_t, to_uniq, prim_irreps, prim_little, atol=atol
    )
    return irreps, z[np.ix_(back, back)], u[back], anti[back], rotations, translations, tr, little


def get_spacegroup_spinor_irreps_from_primitive_symmetry(
    lattice,
    rotations,
    translations,
    time_reversals=None,
    kpoint=None,
    method="Neto",
    rtol=1e-5,
    atol=1e-8,
    max_num_random_generations=4,
):
    """No unitary pure translation but lattice ones; little group; spinor (co-)representations."""
    if kpoint is None:
        kpoint = np.zeros(3)
    for i in range(len(rotations)):
        if time_reversals is not None and time_reversals[i] == 1:
            continue
        if np.allclose(rotations[i], np.eye(3), rtol=rtol, atol=atol):
            if not np.allclose(translations[i], 0, atol=atol):
                raise ValueError("not primitive")
    little_r, little_t, little = get_little_group(
        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
    )
    if time_reversals is None:
        irreps, z, u = enumerate_spinor_small_representations(
            lattice,
            little_r,
            little_t,
            kpoint,
            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        return irreps, z, u, little
    irreps, indicators, z, u, anti = enumerate_spinor_small_corepresentations(
        lattice,
        little_r,
        little_t,
        time_reversals[little],
        kpoint,
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )
    return irreps, indicators, z, u, anti, little


def get_crystallographic_pointgroup_spinor_irreps_from_symmetry(
    lattice, rotations, time_reversals=None, method="Neto", rtol=1e-5, atol=1e-8, max_num_random_generations=4
):
    """Spinor (co-)representations at the zone centre of a symmorphic group."""
    if time_reversals is None:
        z, u = get_spinor_factor_system(lattice, rotations)
        irreps, _ = enumerate_unitary_irreps(
            rotations,
            z,
            real=False,
            method=method,
            rtol=rtol,
            atol=atol,
            max_num_random_generations=max_num_random_generations,
        )
        return irreps, z, u
    return enumerate_spinor_small_corepresentations(
        lattice,
        rotations,
        np.zeros((len(rotations), 3)),
        time_reversals,
        np.zeros(3),
        method=method,
        rtol=rtol,
        atol=atol,
        max_num_random_generations=max_num_random_generations,
    )


def _adjust_phase_for_centering_translations(
    prim_translations,
    prim_kpoint,
    uniq_prim_translations,
    mapping_to_prim,
    prim_irreps,
    mapping_prim_little_group,
    atol=1e-8,
):
    """D(conv_i) = exp(-2 pi i k . (w_i - w_rep)) D(rep) for the operations whose representative is in the little group."""
    where = {}
    for a, g in enumerate(mapping_prim_little_group):
        where[g] = a
    little = []
    back = []
    shifts = []
    for i, rep in enumerate(mapping_to_prim):
        a = where.get(rep)
        if a is None:
            continue
        little.append(i)
        back.append(a)
        shifts.append(prim_translations[i] - uniq_prim_translations[rep])
    phases = np.array([np.exp(-2j * np.pi * (prim_kpoint @ t)) for t in shifts])
    irreps = [purify_irrep_value(d[back] * phases[:, None, None], atol=atol) for d in prim_irreps]
    return irreps, np.array(little), back
