"""Integer encodings of geometries (see spec/Lattice.tla)."""
import math
import numpy as np
from exact_diag.ed_geometry import Geometry, Lattice

S3 = math.sqrt(3)
KINDS = {"square": (Geometry.createSquareGeometry, 1), "tilted": (Geometry.createTiltedSquareGeometry, 1),
         "triangle": (Geometry.createTriangleGeometry, 3), "hex": (Geometry.createHexagonalGeometry, 3)}


def ysc(qy):
    return 2.0 if qy == 1 else 2.0 / S3


def encpts(q, xs, ys, qy, tol=1e-6):
    return [[q.i(x, 2, tol), q.i(y, ysc(qy), tol)] for x, y in zip(np.asarray(xs).ravel(), np.asarray(ys).ravel())]


def encvec(q, v, qy):
    v = np.asarray(v).ravel()
    return [q.i(v[0], 2), q.i(v[1], ysc(qy))]


def dec(v, qy):
    """integer grid -> real vector"""
    return [v[0] / 2.0, v[1] / 2.0 if qy == 1 else v[1] * S3 / 2.0]


def lat_args(L):
    qy = L["qy"]
    return dict(latt_vect1=np.array(dec(L["l1"], qy))[:, None], latt_vect2=np.array(dec(L["l2"], qy))[:, None],
                basis_vects=[np.array(dec(b, qy))[:, None] for b in L["basis"]],
                periodicity_vect1=np.array(dec(L["p1"], qy))[:, None],
                periodicity_vect2=np.array(dec(L["p2"], qy))[:, None])


def blank(**kw):
    L = {"l1": [2, 0], "l2": [0, 2], "basis": [[0, 0]], "p1": [0, 0], "p2": [0, 0], "qx": 1, "qy": 1, "unit": 4,
         "f1": 0, "f2": 0, "fd": 1}
    L.update(kw)
    return L


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def rand_lattice(rng, maxidx=16, valid=True):
    while True:
        qy = rng.choice([1, 1, 3])
        if qy == 1:
            l1 = [rng.randint(-3, 3), rng.randint(-3, 3)]
            l2 = [rng.randint(-3, 3), rng.randint(-3, 3)]
        else:
            l1, l2 = rng.choice([([2, 0], [1, 1]), ([2, 0], [-1, 1]), ([3, 1], [3, -1]), ([1, -1], [1, 1]), ([0, 2], [2, 0])])
        if cross(l1, l2) == 0:
            continue
        a = [[rng.randint(-4, 4) for _ in range(2)] for _ in range(2)]
        d = abs(a[0][0] * a[1][1] - a[0][1] * a[1][0])
        if d == 0 or d > maxidx:
            continue
        p = [[a[k][0] * l1[0] + a[k][1] * l2[0], a[k][0] * l1[1] + a[k][1] * l2[1]] for k in range(2)]
        basis = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if rng.random() < .4:
            basis = [[0, 0]]
        return blank(l1=l1, l2=l2, p1=p[0], p2=p[1], basis=basis, qy=qy)
