"""Reference definitions: matching with tabulated point groups (the tables themselves are checked separately)."""
import numpy as np
from spglib import get_pointgroup

from spgrep.utils import ndarray2d_to_integer_tuple

pg_dataset = __table__("pg_dataset")  # noqa: F821
pg_solvable_chain = __table__("pg_solvable_chain")  # noqa: F821


def get_generators(pg_symbol, idx):
    """Generators along the subgroup chain, from the whole group downwards."""
    _, _, gens = _get_generators(pg_symbol, idx, [])
    return gens


def _get_generators(pg_symbol, idx, gens):
    if pg_symbol == "1":
        return None, None, gens
    (sub_symbol, sub_idx), g = pg_solvable_chain[pg_symbol][idx]
    gens.append(g)
    return _get_generators(sub_symbol, sub_idx, gens)


def get_pointgroup_chain_generators(prim_rotations):
    """Indices (into prim_rotations) of the tabulated generators after P^-1 R P."""
    symbol, _, P = get_pointgroup(prim_rotations)
    Q = np.linalg.inv(P)
    n = len(prim_rotations)
    for setting, table in enumerate(pg_dataset[symbol]):
        keys = [ndarray2d_to_integer_tuple(Q @ r @ P) for r in prim_rotations]
        mapping = [-1 for _ in range(n)]
        ok = True
        for i, r in enumerate(table):
            try:
                j = keys.index(r)
            except ValueError:
                ok = False
                break
            mapping[i] = j
        if ok:
            return [mapping[g] for g in get_generators(symbol, setting)]
    raise ValueError("unknown point group")
