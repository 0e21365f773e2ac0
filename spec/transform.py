"""Reference definitions: change of basis and centring."""
import numpy as np
from spglib import get_spacegroup_type

from spgrep.utils import ndarray2d_to_integer_tuple


def transform_symmetry_and_kpoint(transformation_matrix, rotations, translations, kpoint):
    """(R, w) -> (P^-1 R P, P^-1 w), k -> P^T k."""
    P = transformation_matrix
    Q = np.linalg.inv(P)
    n = len(rotations)
    new_rotations = np.array([np.rint(Q @ rotations[i] @ P).astype(int) for i in range(n)])
    new_translations = np.array([Q @ w for w in translations])
    return new_rotations, new_translations, kpoint @ P


def unique_primitive_symmetry(rotations, translations, time_reversals=None):
    """First representative of every point operation; mapping of operations to representatives."""
    keys = []
    reps_r = []
    reps_t = []
    mapping = [-1 for _ in range(len(rotations))]
    for i in range(len(rotations)):
        key = ndarray2d_to_integer_tuple(rotations[i])
        if time_reversals is not None:
            key = (key, bool(time_reversals[i]))
        try:
            j = keys.index(key)
            mapping[i] = j
        except ValueError:
            reps_r.append(rotations[i])
            reps_t.append(np.remainder(translations[i], 1))
            mapping[i] = len(reps_r) - 1
            keys.append(key)
    return np.array(reps_r), np.array(reps_t), mapping


def get_primitive_transformation_matrix(hall_number):
    """Columns: primitive basis vectors in terms of the conventional ones (ITA / spglib convention)."""
    system = get_crystal_system(hall_number)
    data = get_spacegroup_type(hall_number)
    if system == "trigonal":
        choice = data["choice"]
        if choice == "H":
            return np.array([[2, -1, -1], [1, 1, -2], [1, 1, 1]]) / 3
        if choice == "" or choice == "R":
            return np.eye(3)
        raise ValueError("unknown setting")
    letter = get_centering(data["hall_symbol"])
    if letter == "P":
        return np.eye(3)
    if letter == "A":
        return np.array([[2, 0, 0], [0, 1, -1], [0, 1, 1]]) / 2
    if letter == "B":
        return np.array([[1, 0, -1], [0, 2, 0], [1, 0, 1]]) / 2
    if letter == "C":
        return np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]]) / 2
    if letter == "I":
        return np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1]]) / 2
    if letter == "F":
        return np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]]) / 2
    raise ValueError("unknown centring")


def get_crystal_system(hall_number):
    """Hall numbers 1..530 in the order of the space-group types."""
    if 1 <= hall_number <= 2:
        return "triclinic"
    if 3 <= hall_number <= 107:
        return "monoclinic"
    if 108 <= hall_number <= 348:
        return "orthorhombic"
    if 349 <= hall_number <= 429:
        return "tetragonal"
    if 430 <= hall_number <= 461:
        return "trigonal"
    if 462 <= hall_number <= 488:
        return "hexagonal"
    if 489 <= hall_number <= 530:
        return "cubic"
    raise ValueError("unknown Hall number")


def get_centering(hall_symbol):
    """The lattice letter follows an optional minus sign."""
    return hall_symbol[1] if hall_symbol[0] == "-" else hall_symbol[0]
