"""Construction of the real many-body systems from small descriptions."""
import numpy as np
import scipy.sparse as sp
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_base import ed_base
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem


class Boson(ed_base):
    """what the base class documents: truncated bosons, several species"""
    def __init__(self, geometry, nbasis, nspecies):
        self.nbasis = nbasis
        self.nspecies = nspecies
        super().__init__(geometry)


def chain(n, closed=False):
    return Geometry.createSquareGeometry(n, 1, 0, 0, bc1_open=not (closed and n > 1), bc2_open=True)


def system(kind, n, ns=1, b=2):
    """-> description used by spec/Fock.tla"""
    return {"n": n, "ns": ns, "b": b, "f": kind == "fermion"}


def model(kind, n, ns=1, b=2, geom=None):
    g = geom if geom is not None else chain(n)
    if kind == "fermion":
        return fermions(g, 0, 0, nspecies=ns)
    if kind == "spin":
        return spinSystem(g, spin=(b - 1) / 2)
    return Boson(g, b, ns)


def rand_op(rng, b, cplx=True, density=.6):
    m = np.zeros((b, b), dtype=complex)
    for i in range(b):
        for j in range(b):
            if rng.random() < density:
                m[i, j] = rng.randint(-3, 3) + (1j * rng.randint(-2, 2) if cplx else 0)
    return m if cplx else m.real


def enc_op(m):
    m = m.toarray() if sp.issparse(m) else np.asarray(m)
    return [[[int(round(z.real)), int(round(z.imag))] for z in row] for row in m.astype(complex)]


def rand_cycles(rng, n):
    """a random permutation as a list of disjoint cycles in an arbitrary presentation"""
    p = list(range(n))
    rng.shuffle(p)
    seen, cs = set(), []
    for i in range(n):
        if i in seen:
            continue
        c, x = [], i
        while x not in seen:
            seen.add(x)
            c.append(x)
            x = p[x]
        k = rng.randrange(len(c))
        c = c[k:] + c[:k]
        if len(c) > 1 or rng.random() < .5:
            cs.append(c)
    rng.shuffle(cs)
    return cs
