"""Reference definitions: elementary helpers (never executed; lifted by /verif/sa and compared)."""
import numpy as np
from spglib import get_symmetry_from_database


def is_integer_array(array, rtol=1e-5, atol=1e-8):
    """Every entry lies within tolerance of an integer."""
    return np.allclose(np.rint(array), array, rtol=rtol, atol=atol)


def ndarray2d_to_integer_tuple(array):
    """Hashable key of an integer matrix."""
    return tuple(tuple(row) for row in np.rint(array).astype(int).tolist())


def get_symmetry_from_hall_number(hall_number):
    """Operations tabulated for a Hall number."""
    data = get_symmetry_from_database(hall_number)
    return data["rotations"], data["translations"]


def is_prime(n):
    """At least two, and no divisor in 2..n-1."""
    return n >= 2 and all(n % d != 0 for d in range(2, n))


def nroot(z, n):
    """n-th root of z whose argument lies closest to zero, |arg| <= pi / n."""
    w = z ** (1 / n)
    phi = np.angle(w)
    step = 2 * np.pi / n
    return np.abs(w) * np.exp(1j * (phi - np.rint(phi * n / (2 * np.pi)) * step))


def grassmann_distance(basis1, basis2, ord="min", skip_orthonormalization=False):
    """Distance of the row spaces from the cosines of their principal angles."""
    if skip_orthonormalization:
        q1, q2 = basis1.T, basis2.T
    else:
        q1 = np.linalg.qr(basis1.T)[0]
        q2 = np.linalg.qr(basis2.T)[0]
    cosines = np.linalg.svd(q1.conj().T @ q2, compute_uv=False)
    k = min(basis1.shape[0], basis2.shape[0])
    if ord == "min":
        return np.sqrt(np.clip(1 - cosines[k - 1] ** 2, a_min=0, a_max=None))
    if ord == "projection":
        return np.sqrt(np.mean(np.arccos(np.clip(cosines[:k], a_min=-1, a_max=1)) ** 2))
    raise ValueError("unknown distance")


def mode_dot(coeffs, list_matrix):
    """Apply the a-th matrix to the a-th index of a tensor."""

    def apply(tensor, mat, axis):
        t = tensor.reshape(tuple([1] + list(tensor.shape)))
        m = mat.reshape(tuple(list(mat.shape) + [1] * (tensor.ndim - 1)))
        m = np.swapaxes(np.swapaxes(m, 0, 1), 1, axis + 1)
        return np.swapaxes(np.sum(t * m, axis=axis + 1, keepdims=True), 0, axis + 1)[0]

    out = coeffs.copy()
    for axis, mat in enumerate(list_matrix):
        out = apply(out, mat, axis)
    return out
