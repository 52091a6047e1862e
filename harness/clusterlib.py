"""Clusters of the square lattice as integer data."""
import numpy as np
from exact_diag.ed_geometry import Geometry
from exact_diag import ed_nlce


def ints(q, xs):
    return [q.i(x) for x in np.asarray(xs, dtype=float).ravel()]


def sites(q, g):
    return [[a, b] for a, b in zip(ints(q, g.xlocs), ints(q, g.ylocs))]


def cl(q, g):
    return {"s": sites(q, g), "a": q.mat(g.adjacency_mat)}


def plain(g):
    return [[int(round(float(a))), int(round(float(b)))] for a, b in zip(np.ravel(g.xlocs), np.ravel(g.ylocs))]


def geom(cells, rng=None, srt=False):
    cells = list(cells)
    if rng is not None:
        rng.shuffle(cells)
    g = Geometry.createNonPeriodicGeometry(np.array([float(c[0]) for c in cells]), np.array([float(c[1]) for c in cells]))
    if srt:
        g.permute_sites(g.get_sorting_permutation())
    return g


def random_animal(r, n, mv=((1, 0), (-1, 0), (0, 1), (0, -1)), compact=0.):
    """connected set of n sites at a random place"""
    c = {(r.randint(-5, 5), r.randint(-5, 5))}
    while len(c) < n:
        cand = sorted({(x + a, y + b) for x, y in c for a, b in mv} - c)
        if r.random() < compact:
            best = max(sum((x + a, y + b) in c for a, b in mv) for x, y in cand)
            cand = [(x, y) for x, y in cand if sum((x + a, y + b) in c for a, b in mv) == best]
        c.add(r.choice(cand))
    return sorted(c)
