"""A pool of small real geometries with integer descriptions."""
import numpy as np
from exact_diag.ed_geometry import Geometry


def qphase(g):
    """link phases in quarter turns where there is a link, else 0; None when off that grid"""
    ph = np.angle(np.asarray(g.phase_mat)) / (np.pi / 2)
    out = []
    for i in range(g.nsites):
        row = []
        for j in range(g.nsites):
            if not g.adjacency_mat[i, j]:
                row.append(0)
                continue
            r = round(ph[i, j])
            if abs(ph[i, j] - r) > 1e-9:
                return None
            row.append(int(r) % 4)
        out.append(row)
    return out


def desc(g):
    return {"n": int(g.nsites), "adj": [[int(round(x)) for x in r] for r in np.asarray(g.adjacency_mat)], "ph": qphase(g)}


def small_geoms(rng, maxn, count, twist=True):
    out = []
    while len(out) < count:
        k = rng.randrange(9)
        if k == 0:
            g = Geometry.createSquareGeometry(rng.randint(1, maxn), 1)
        elif k == 1:
            n = rng.randint(2, maxn)
            tw = rng.choice([0, 0, 1, 2, 3]) if twist else 0
            g = Geometry.createSquareGeometry(n, 1, 2 * np.pi * n * tw / 4, 0, bc1_open=False)
        elif k == 2:
            n = rng.randint(2, maxn)
            tw = rng.choice([0, 0, 1, 3]) if twist else 0
            g = Geometry.createSquareGeometry(1, n, 0, 2 * np.pi * n * tw / 4, bc2_open=False)
        elif k == 3:
            a, b = rng.choice([(2, 2), (2, 3), (3, 2)])
            if a * b > maxn:
                continue
            g = Geometry.createSquareGeometry(a, b, 2 * np.pi * a * rng.choice([0, 1, 2]) / 4 if twist else 0, 0,
                                              bc1_open=bool(rng.randint(0, 1)), bc2_open=bool(rng.randint(0, 1)))
        elif k == 4:
            a, b = rng.choice([(1, 1), (2, 1), (1, 2)])
            if a * a + b * b > maxn:
                continue
            g = Geometry.createTiltedSquareGeometry(a, b, 0, 0, bc1_open=bool(rng.randint(0, 1)), bc2_open=bool(rng.randint(0, 1)))
        elif k == 5:
            a, b = rng.choice([(2, 2), (2, 1), (3, 1), (1, 3), (3, 2)])
            if a * b > maxn:
                continue
            g = Geometry.createTriangleGeometry(a, b, bc1_open=a == 1 or bool(rng.randint(0, 1)), bc2_open=b == 1 or bool(rng.randint(0, 1)))
        elif k == 6:
            n = rng.randint(3, maxn) if maxn >= 3 else 3
            if n > maxn:
                continue
            g = Geometry.createRegularPolygonGeometry(n)
        elif k == 7 and maxn >= 4:
            g = Geometry.createHexagonalGeometry(1, 1)
        else:
            n = rng.randint(2, maxn)
            a = np.zeros((n, n))
            for i in range(n):
                for j in range(i):
                    a[i, j] = a[j, i] = rng.randint(0, 1)
            q = np.zeros((n, n), dtype=int)
            if twist and rng.random() < .5:
                for i in range(n):
                    for j in range(i):
                        q[i, j] = rng.randint(0, 3)
                        q[j, i] = -q[i, j]
            ph = np.round(np.exp(1j * np.pi / 2 * q), 14)
            g = Geometry.createNonPeriodicGeometry([float(rng.randint(-4, 4)) for _ in range(n)],
                                                   [float(rng.randint(-4, 4)) for _ in range(n)], a, ph if q.any() else None)
        if qphase(g) is None:
            continue
        if rng.random() < .4:
            p = list(range(g.nsites))
            rng.shuffle(p)
            g.permute_sites(np.array(p))
        out.append(g)
    return out
