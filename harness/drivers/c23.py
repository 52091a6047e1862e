"""Sessions over shared objects: the same question has the same answer at any time, and asking disturbs nothing."""
import hashlib
import itertools
import json
import os
import random
import struct
import warnings
import zlib
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from geos import small_geoms
from exact_diag.ed_geometry import Lattice, get_reciprocal_vects, reduce_vectors
from exact_diag import ed_symmetry as symm, ed_nlce as nlce, fermi_gas as fg, greens_fns as gf

GEN = os.path.join(os.environ["VERIF_GEN"], "c23.json") if "VERIF_GEN" in os.environ else ""
SCALE = 10 ** 5
TOP = 2000000000


# ------------------------------------------------------------------ values
def numbers(x):
    """flat list of floats describing a value, independent of containers and formats"""
    if x is None:
        return []
    if isinstance(x, str):
        return [float(zlib.crc32(x.encode()) % 10007)]
    if isinstance(x, (Geometry, Lattice)):
        return sum((numbers(np.asarray(getattr(x, k))) for k in ATTRS[type(x)] if hasattr(x, k)), [])
    if sp.issparse(x):
        x = x.toarray()
    if isinstance(x, (list, tuple)):
        return [float(len(x))] + sum((numbers(y) for y in x), [])
    a = np.asarray(x)
    if a.dtype == object:
        return sum((numbers(y) for y in a.ravel()), [])
    a = np.asarray(a, dtype=complex)
    cplx = bool(np.any(np.abs(a.imag) > 1e-8))
    v = np.stack([a.real.ravel(), a.imag.ravel()], axis=1).ravel() if cplx else a.real.ravel()
    return [float(s) for s in a.shape if s > 1] + [float(cplx)] + [float(y) for y in v]


ATTRS = {Geometry: ["xlocs", "ylocs", "adjacency_mat", "phase_mat", "xdist_mat", "ydist_mat"],
         Lattice: ["lattice_vect1", "lattice_vect2", "basis_vects", "periodicity_vect1", "periodicity_vect2", "phase1", "phase2"]}


def grid(x):
    v = numbers(x)
    if len(v) > 160:
        w = np.asarray(v)
        with np.errstate(all="ignore"):
            sums = [float(np.sum(w * np.cos(np.arange(len(v)) * f)) / np.sqrt(len(v))) for f in (.7, 1.3, 2.9)]
        v = [float(len(v))] + sums + [v[i] for i in np.linspace(0, len(v) - 1, 120).astype(int)]

    def one(y):
        if np.isnan(y):
            return TOP + 3
        if abs(y) * SCALE > TOP - 10:
            return (TOP + 1 if y > 0 else -TOP - 1)
        return int(round(y * SCALE))
    return [one(y) for y in v]


def digest(x, names=None):
    h = hashlib.md5()

    def go(x):
        if x is None or isinstance(x, (str, bool, bytes)):
            h.update(repr(x).encode())
        elif isinstance(x, (Geometry, Lattice, ed_base)):
            for k in names[id(x)]:
                h.update(k.encode())
                go(getattr(x, k, "gone"))
        elif sp.issparse(x):
            go(x.toarray())
        elif isinstance(x, (list, tuple, range)):
            h.update(b"[%d" % len(x))
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for k in sorted(x):
                go(k)
                go(x[k])
        elif callable(x):
            pass
        else:
            a = np.asarray(x)
            if a.dtype == object:
                return
            h.update(repr(a.shape).encode())
            h.update((np.asarray(a, dtype=complex) + 0.).tobytes())
    go(x)
    return h.hexdigest()[:10]


def publics(env):
    """the attributes that exist when the objects have been built"""
    names = {}

    def go(x):
        if isinstance(x, (Geometry, Lattice, ed_base)) and id(x) not in names:
            names[id(x)] = sorted(k for k in vars(x) if not k.startswith("_"))
            for k in names[id(x)]:
                go(getattr(x, k))
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    for v in env.values():
        go(v)
    return names


def scribble(x):
    """overwrite a result the way a user may"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object and x.ndim:
            x[...] = 77
        elif x.dtype == object:
            for y in x.ravel():
                scribble(y)
    elif sp.issparse(x):
        d = getattr(x, "data", None)
        if isinstance(d, np.ndarray) and d.dtype != object:
            d[...] = 77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)


# ------------------------------------------------------------------ worlds: objects and questions
# a question is (name, {slot: value}); a value "@p" names a pooled object
def herm(r, n, cplx=True):
    m = np.array([[r.randint(-2, 2) + (1j * r.randint(-2, 2) if cplx else 0) for _ in range(n)] for _ in range(n)])
    return m + m.conj().T


def vec(r, n, k=1, cplx=True):
    m = np.array([[r.randint(-3, 3) + (1j * r.randint(-2, 2) if cplx else 0) for _ in range(k)] for _ in range(n)]) + .5
    return m / np.sqrt((abs(m) ** 2).sum(axis=0))


def some_geom(r, maxn):
    while True:
        k = r.randrange(6)
        if k == 0:
            g = Geometry.createSquareGeometry(r.randint(2, maxn), 1)
        elif k == 1:
            g = Geometry.createSquareGeometry(r.randint(3, max(3, maxn)), 1, r.choice([0, .5]), 0, bc1_open=False)
        elif k == 2:
            g = Geometry.createSquareGeometry(2, 2)
        elif k == 3:
            g = Geometry.createTriangleGeometry(2, 2)
        elif k == 4:
            g = Geometry.createRegularPolygonGeometry(r.randint(3, max(3, maxn)))
        else:
            n = r.randint(2, maxn)
            a = np.triu(np.array([[r.randint(0, 1) for _ in range(n)] for _ in range(n)], dtype=float), 1)
            g = Geometry.createNonPeriodicGeometry([float(i) for i in range(n)], [float(r.randint(0, 2)) for _ in range(n)], a + a.T)
        if g.nsites <= maxn:
            return g


def real_phase(g):
    return not np.any(np.abs(np.imag(g.phase_mat)) > 1e-9)


def w_ops(r, shape):
    kind, nsp = shape
    n = r.choice([2, 3, 3])
    g = some_geom(r, n)
    n = g.nsites
    b = {"fermion": 2, "spin": 2, "spin1": 3, "boson": 3}[kind]
    if kind == "fermion":
        m = fermions(g, r.randint(1, 4), 1, nspecies=nsp)
    elif kind in ("spin", "spin1"):
        m = spinSystem(g, spin=(b - 1) / 2)
        nsp = 1
    else:
        nsp = 1
        m = Boson(g, b, 1)
    env = {"m": m, "a": herm(r, b), "b": rand_op(r, b), "c": rand_op(r, b, False), "cy1": [list(range(n))], "cy2": [list(range(n))[::-1]], "cy3": [[0, n - 1]],
           "q1": np.array([.3, .1]), "q2": np.array([.3, 1.]), "cm": np.array([r.randint(0, 1) for _ in range(n * (n - 1) // 2)])}
    S, P, O, F = list(range(n)), list(range(nsp)), ["@a", "@b", "@c"], ["boson", "fermion"] if kind == "fermion" else ["boson"]
    qs = {"single": (lambda m, s, p, o, f: m.get_single_site_op(s, p, o, f), dict(m=["@m"], s=S, p=P, o=O, f=F)),
          "two": (lambda m, s, p, s2, p2, o, o2, f: m.get_two_site_op(s, p, s2, p2, o, o2, f), dict(m=["@m"], s=S, p=P, s2=S, p2=P, o=O, o2=O, f=F)),
          "sumq": (lambda m, p, q, o, f: m.get_sum_op_q(p, q, o, f), dict(m=["@m"], p=P, q=["@q1", "@q2"], o=O, f=F)),
          "index": (lambda m, s, p: [m.spinful2spinlessIndex(s, n, p), m.spinless2spinfullIndex(s + n * p, n)], dict(m=["@m"], s=S, p=P))}
    if kind.startswith("spin"):
        qs["sum"] = (lambda m, o: m.get_sum_op(o), dict(m=["@m"], o=O))
        qs["allsite"] = (lambda m, o: m.get_allsite_op(o), dict(m=["@m"], o=O))
        if kind == "spin":
            qs["states"] = (lambda m: m.get_state_vects(), dict(m=["@m"]))
            qs["parity"] = (lambda m: m.get_state_parity(), dict(m=["@m"]))
            qs["updown"] = (lambda m: m.get_swap_up_down_op(), dict(m=["@m"]))
            qs["npairs"] = (lambda m, c: m.get_npairs_op(c), dict(m=["@m"], c=["@cm"]))
    else:
        qs["sum"] = (lambda m, p, o, f: m.get_sum_op(o, p, f), dict(m=["@m"], p=P, o=O, f=F))
    if kind != "boson":
        qs["swap"] = (lambda m, s, s2, p: m.get_swap_op(s, s2, p), dict(m=["@m"], s=S, s2=S, p=P))
        qs["xform"] = (lambda m, c: m.get_xform_op(c), dict(m=["@m"], c=["@cy1", "@cy2", "@cy3"]))
    return env, qs


def w_ham(r, shape):
    nsp = shape
    g = some_geom(r, 3 if nsp < 3 else 2)
    n = g.nsites
    v = lambda *k: np.array([float(r.randint(-3, 3)) for _ in range(int(np.prod(k)))]).reshape(k)
    hop = lambda: np.stack([herm(r, n, False).astype(float) for _ in range(nsp)], axis=2)
    m = fermions(g, v(n) if nsp > 1 else 0, r.choice([1, hop()]), mus=v(nsp), potentials=v(n, nsp), us_same_species=r.choice([0, 2, hop()]), nspecies=nsp)
    m2 = fermions(g, 1., -1., ns=[1] * nsp, nspecies=nsp)
    env = {"m": m, "g": g, "P": m2.n_projector, "E": sp.eye(m.nstates, format="csr"), "u1": v(n), "u2": v(n), "s1": hop(), "s2": hop(),
           "v1": v(n, nsp), "v2": v(n, nsp), "m1": v(nsp), "m2": v(nsp), "dx": np.array([1, 0]), "dy": np.array([0, 1]), "dxy": np.array([1, 1]), "t1": hop(), "k1": [1] * nsp, "k2": [2] * nsp, "k3": [None] * nsp}
    P = [None, "@P", "@E"]
    D = ["@dx", "@dy", "@dxy"]
    qs = {"H": (lambda m, P: m.createH(P), dict(m=["@m"], P=P)),
          "kin": (lambda m, P, d: m.get_kinetic_op(P, d), dict(m=["@m"], P=P, d=D)),
          "kin0": (lambda m: m.get_kinetic_op(), dict(m=["@m"])),
          "us": (lambda m, u, P: m.get_u_samespecies_op(u, P), dict(m=["@m"], u=["@s1", "@s2"], P=P)),
          "pot": (lambda m, v, P: m.get_potential_op(v, P), dict(m=["@m"], v=["@v1", "@v2"], P=P)),
          "cur": (lambda m, d: m.get_current_op(np.reshape(d, (2, 1))), dict(m=["@m"], d=D)),
          "cur0": (lambda m: m.get_current_op(), dict(m=["@m"])),
          "states": (lambda m, P: m.get_state_vects(P), dict(m=["@m"], P=P)),
          "new": (lambda g, u, v, s: fermions(g, u if nsp > 1 else 0, 1., mus=0, potentials=v, us_same_species=s, nspecies=nsp).createH(),
                  dict(g=["@g"], u=["@u1", "@u2"], v=["@v1", "@v2", 0], s=["@s1", "@s2", 0])),
          "newt": (lambda g, t: fermions(g, 0, t, nspecies=nsp).createH(), dict(g=["@g"], t=["@t1", 1., -2.])),
          "newn": (lambda g, k: fermions(g, 0, 1., ns=k, nspecies=nsp).n_projector, dict(g=["@g"], k=["@k1", "@k2", "@k3"]))}
    qs["chem"] = (lambda m, v, P: m.get_chemical_pot_op(v, P), dict(m=["@m"], v=["@m1", "@m2"], P=P))
    if nsp > 1:
        qs["ui"] = (lambda m, u, P: m.get_u_interspecies_op(u, P), dict(m=["@m"], u=["@u1", "@u2"], P=P))
    return env, qs


def w_spin(r, shape):
    spin = shape
    while True:
        g = some_geom(r, 4 if spin == .5 else 3)
        if real_phase(g):
            break
    n = g.nsites
    v = lambda k: np.array([float(r.randint(-3, 3)) for _ in range(k)])
    J = herm(r, n, False).astype(float)
    m = spinSystem(g, jx=r.choice([0., 1.]), jy=r.choice([0., .5]), jz=r.choice([1., J - np.diag(np.diag(J))]), hx=r.choice([0., v(n)]), hy=r.choice([0, .5]), hz=r.choice([1., v(n)]), spin=spin)
    d = m.nstates
    k = max(1, d // 2)
    env = {"m": m, "g": g, "P": sp.csr_matrix((np.ones(k), (range(k), r.sample(range(d), k))), shape=(k, d)), "E": sp.eye(d, format="csr"),
           "j1": J - np.diag(np.diag(J)), "j2": np.ones((n, n)) - np.eye(n), "h1": v(n), "h2": v(n)}
    P = [None, "@P", "@E"]
    qs = {"H": (lambda m, P: m.createH(P), dict(m=["@m"], P=P)), "int": (lambda m, P: m.get_interaction_op(P), dict(m=["@m"], P=P)),
          "field": (lambda m, P: m.get_field_op(P), dict(m=["@m"], P=P)), "c6": (lambda m, c: m.get_interaction_mat_c6(c), dict(m=["@m"], c=[1., 2., -1.])),
          "jmat": (lambda m, j: m.get_interaction_mat(j) * 1, dict(m=["@m"], j=[1., 2., "@j1", "@j2"])),
          "hmat": (lambda m, h: m.get_field_mat(h) * 1, dict(m=["@m"], h=[1., 2., "@h1", "@h2"])),
          "ryd": (lambda m, j: m.get_rydberg_detunes(j) * 1, dict(m=["@m"], j=["@j1", "@j2"])),
          "new": (lambda g, j, h, d: spinSystem(g, jz=j, hx=h, use_ryd_detunes=d, spin=spin).createH(), dict(g=["@g"], j=[1., "@j1", "@j2"], h=[0, "@h1", "@h2"], d=[False])),
          "sx": (lambda m: [m.sx * 1, m.sy * 1, m.sz * 1, m.get_splus(spin), m.get_sx(spin)], dict(m=["@m"]))}
    return env, qs


def w_state(r, shape):
    kind, cplx = shape
    g = some_geom(r, 2 if kind == 2 else 3)
    m = fermions(g, 2., 1., nspecies=kind) if kind < 3 else (spinSystem(g, jz=1., hx=1.))
    d, n, nsp = m.nstates, g.nsites, m.nspecies
    h = herm(r, d, cplx)
    e, w = np.linalg.eigh(h)
    k = r.randint(1, 3)
    ps = sorted(r.sample(range(d), max(2, d // 2)))
    P = sp.csr_matrix((np.ones(len(ps)), (range(len(ps)), ps)), shape=(len(ps), d))
    hp = (P * sp.csr_matrix(h) * P.T).toarray()
    ep, wp = np.linalg.eigh(hp)
    diag = sp.diags([float(r.randint(0, 2)) for _ in range(d)], 0, format="csr")
    b = 2
    env = {"m": m, "h": sp.csr_matrix(h), "h2": sp.csr_matrix(herm(r, d, cplx)), "e": e, "w": w, "e2": np.sort([float(r.randint(-2, 2)) for _ in range(d)]), "psi": vec(r, d, k, cplx), "phi": vec(r, d, k, cplx),
           "spsi": sp.csc_matrix(vec(r, d, k, cplx)), "one": vec(r, d, 1, cplx)[:, 0], "o1": sp.csr_matrix(herm(r, d, cplx)), "o2": sp.csr_matrix(herm(r, d, cplx)), "P": P, "ep": ep, "wp": wp, "ppsi": vec(r, len(ps), k, cplx),
           "t1": np.array([.5, 1., 4.]), "t2": np.array([0., .5, np.inf]), "t3": [1.], "a": herm(r, b, False), "b": herm(r, b, False), "s1": [0], "s2": np.arange(n)[::-1].copy(), "diag": diag,
           "times": np.array([0., .5, 2.]), "times2": np.array([1.]), "projs": [P, sp.eye(d, format="csr")], "secE": [e[:d // 2].copy(), e[d // 2:].copy()], "secE2": [e.copy()], "secE3": [e[:d // 2][::-1].copy(), e[d // 2:][::-1].copy()],
           "secA": np.array([[1., 2., 3.], [-1., 0., 4.]]), "ev": [0., 1.], "A": w.conj().T @ herm(r, d, cplx) @ w, "B": w.conj().T @ herm(r, d, cplx) @ w, "ws": np.array([-1., 0., .3, 2.])}
    T = ["@t1", "@t2", "@t3"]
    F = ["boson", "fermion"] if kind < 3 else ["boson"]
    S = list(range(nsp))
    qs = {"diag": (lambda m, h: m.diagH(h)[0], dict(m=["@m"], h=["@h", "@h2"])),
          "quench": (lambda m, w, s, e, t: m.quench_time_evolve(s, w, e, t)[1], dict(m=["@m"], w=["@w"], s=["@psi", "@phi"], e=["@e", "@e2"], t=["@times", "@times2"])),
          "exp": (lambda m, s, o: m.get_exp_vals(s, o), dict(m=["@m"], s=["@psi", "@phi", "@spsi", "@one"], o=["@o1", "@o2"])),
          "ovl": (lambda m, s, s2: m.get_overlaps(s, s2), dict(m=["@m"], s=["@psi", "@phi", "@spsi"], s2=["@psi", "@phi", "@spsi"])),
          "norm": (lambda m, s: m.get_norms(s), dict(m=["@m"], s=["@psi", "@phi", "@spsi"])),
          "esites": (lambda m, s, o, p, l, f: m.get_exp_vals_sites(s, o, p, l, None, f)[0], dict(m=["@m"], s=["@psi", "@phi"], o=["@a", "@b"], p=S, l=[None, "@s1", "@s2"], f=F)),
          "esitesP": (lambda m, s, o, p, P, f: m.get_exp_vals_sites(s, o, p, None, P, f)[0], dict(m=["@m"], s=["@ppsi"], o=["@a", "@b"], p=S, P=["@P"], f=F)),
          "tsites": (lambda m, e, w, o, p, t, l, f: m.get_thermal_exp_sites(w, e, o, p, t, l, None, f)[0], dict(m=["@m"], e=["@e", "@e2"], w=["@w"], o=["@a", "@b"], p=S, t=T, l=[None, "@s1", "@s2"], f=F)),
          "csites": (lambda m, s, p, p2, o, o2, l, f: m.get_corr_sites(s, p, p2, o, o2, l, l, None, f)[0], dict(m=["@m"], s=["@psi", "@phi"], p=S, p2=S, o=["@a", "@b"], o2=["@a", "@b"], l=[None, "@s1", "@s2"], f=F)),
          "tcorr": (lambda m, e, w, p, p2, o, t, l, f: m.get_thermal_corr_sites(w, e, p, p2, o, o, t, l, l, None, f)[0], dict(m=["@m"], e=["@e", "@e2"], w=["@w"], p=S, p2=S, o=["@a", "@b"], t=T, l=[None, "@s1", "@s2"], f=F)),
          "tcorrP": (lambda m, e, w, o, t, P, f: m.get_thermal_corr_sites(w, e, 0, 0, o, o, t, None, None, P, f)[0], dict(m=["@m"], e=["@ep"], w=["@wp"], o=["@a", "@b"], t=T, P=["@P"], f=F)),
          "subov": (lambda m, s, P: m.get_subspace_overlaps(s, P), dict(m=["@m"], s=["@psi", "@phi"], P=["@projs", "@P"])),
          "subpr": (lambda m, d, e: m.get_subspace_projs(d, e), dict(m=["@m"], d=["@diag"], e=[None, "@ev"])),
          "therm": (lambda m, w, e, o, t: m.get_exp_vals_thermal(w, o, e, t), dict(m=["@m"], w=["@w"], e=["@e", "@e2"], o=["@o1", "@o2"], t=T)),
          "wts": (lambda m, e, t, u: m.get_thermal_weights(e, t, u), dict(m=["@m"], e=["@e", "@e2"], t=["@t1", "@t3"], u=[True, False])),
          "zH": (lambda m, h, b: m.get_partition_fn_hamiltonian(h, b), dict(m=["@m"], h=["@h", "@h2"], b=[.5, .1])),
          "zS": (lambda m, e, t: m.get_partition_fn_sectors(e, t), dict(m=["@m"], e=["@secE", "@secE2", "@secE3"], t=[.5, 1., 2.])),
          "comb": (lambda m, a, e, t: m.thermal_avg_combine_sectors(a, e, t), dict(m=["@m"], a=["@secA"], e=["@secE", "@secE3"], t=["@t1"])),
          "mel": (lambda m, w, o: m.get_matrix_elems(w, o), dict(m=["@m"], w=["@w"], o=["@o1", "@o2"])),
          "resp": (lambda m, a, b, e, t, f, ws: resp(m, a, b, e, t, f, ws),
                   dict(m=["@m"], a=["@A", "@B"], b=["@A", "@B"], e=["@e"], t=[0., .5, 2.], f=["boson", "fermion"], ws=["@ws"]))}
    if kind < 3:
        qs["icond"] = (lambda m, a, e, t: m.integrate_conductivity(a, e, t), dict(m=["@m"], a=["@A", "@B"], e=["@e"], t=[.5, 2.]))
        qs["ocond"] = (lambda m, a, e, t, ws: opt(m, a, e, t, ws), dict(m=["@m"], a=["@A", "@B"], e=["@e"], t=[.5, 2.], ws=["@ws"]))
    return env, qs


def resp(m, a, b, e, t, f, ws):
    fn = m.get_response_fn_retarded(a, b, e, t, f)
    return [fn(x, .5) for x in ws] + [fn(x, 1.) for x in ws]


def opt(m, a, e, t, ws):
    fn = m.get_optical_cond_fn(a, e, t)
    return [fn(x + .2, .5) for x in ws] + [fn(x + .2, 1.) for x in ws]


def w_geom(r, shape):
    k = shape
    mk = {0: lambda: Geometry.createSquareGeometry(r.randint(2, 4), r.randint(1, 3), .3, 0, bc1_open=False), 1: lambda: Geometry.createTiltedSquareGeometry(2, r.choice([1, -1, 3]), 0, .2, bc1_open=False, bc2_open=False),
          2: lambda: Geometry.createTriangleGeometry(2, r.randint(2, 3), bc1_open=False, bc2_open=False), 3: lambda: Geometry.createHexagonalGeometry(r.randint(1, 2), 2),
          4: lambda: Geometry.createSquareGeometry(3, 3, bc1_open=False, bc2_open=False)}[k]
    g = mk()
    h = mk()
    x = np.array([r.randint(-9, 9) / 2 for _ in range(6)])
    y = np.array([r.randint(-9, 9) / 2 for _ in range(6)])
    dx, dy = np.meshgrid(g.xlocs, g.xlocs)
    ex, ey = np.meshgrid(g.ylocs, g.ylocs)
    env = {"g": g, "h": h, "x": x, "y": y, "xm": (dx - dy), "ym": (ex - ey), "v1": np.array([[2.], [1.]]), "v2": np.array([[-1.], [2.]]), "v3": np.array([[0.], [0.]]), "sites": list(range(g.nsites)),
           "sites2": [0], "sites3": np.arange(g.nsites)[::-1].copy(), "x3": np.array([r.randint(-99, 99) / 7 for _ in range(6)]), "xr": np.array([[r.randint(-99, 99) / 7 for _ in range(6)]]), "yr": np.array([[r.randint(-99, 99) / 7 for _ in range(6)]]), "tx": np.array([1., 0.]), "ty": np.array([0., 1.])}
    G = ["@g", "@h"]
    T = {"tx": lambda: symm.getTranslFn(np.array([1., 0.])), "ty": lambda: symm.getTranslFn(np.array([0., 1.])), "rot": lambda: symm.getRotFn(4, 1, 1), "inv": lambda: symm.getInversionFn(1, 1), "ref": lambda: symm.getReflFn(np.array([1., 1.]), 1, 1)}
    qs = {"com": (lambda g: g.get_center_of_mass(), dict(g=G)), "sort": (lambda g, m: g.get_sorting_permutation(m), dict(g=G, m=["top_alternating", "top_left", "bottom_right", "adjacency"])),
          "dist": (lambda g: g.get_site_distance(), dict(g=G)), "nbr": (lambda g, a, b: g.get_neighbors_by_distance(a, b), dict(g=G, a=["@xm"], b=["@ym"])),
          "eq": (lambda g, h: [g == h, g != h, g.isequal_adjacency(h), g.lattice == h.lattice], dict(g=G, h=G)), "uniq": (lambda g: g.lattice.get_unique_sites(), dict(g=G)),
          "rdist": (lambda g, a, b: g.lattice.get_reduced_distance(a, b), dict(g=G, a=["@x", "@y", "@x3"], b=["@x", "@y"])),
          "phase": (lambda g, a, b: g.lattice.get_phase_mat(a, b), dict(g=G, a=["@xm", "@ym"], b=["@ym", "@xm"])),
          "cell": (lambda g, a, b, m: g.lattice.reduce_to_unit_cell(a, b, m), dict(g=G, a=["@x", "@y", "@x3"], b=["@x", "@y", "@x3"], m=["positive", "centered"])),
          "valid": (lambda g: [g.validate_instance(), g.lattice.validate_instance()], dict(g=G)),
          "recip": (lambda a, b: get_reciprocal_vects(a, b), dict(a=["@v1"], b=["@v3", "@v2"])),
          "red": (lambda a, b, x, y, m: reduce_vectors(a, b, x, y, m), dict(a=["@v1"], b=["@v3", "@v2"], x=["@x", "@x3", "@xr"], y=["@x", "@y", "@yr"], m=["positive", "centered"])),
          "apply": (lambda t, a, b: T[t]()(a, b), dict(t=list(T), a=["@x", "@y", "@x3"], b=["@x", "@y"])),
          "image": (lambda t, s, g: symm.getTransformedSites(T[t](), s, g), dict(t=list(T), s=["@sites", "@sites2", "@sites3"], g=G)),
          "cycles": (lambda t, g: symm.findSiteCycles(T[t](), g), dict(t=list(T), g=G))}
    return env, qs


def w_symm(r, shape):
    n = shape
    def rep():
        bl = [np.roll(np.eye(n), 1, axis=0)] + [np.eye(1) for _ in range(r.randint(0, 1))]
        sl = [np.eye(n)[[(-i) % n for i in range(n)]]] + [np.eye(1) * r.choice([1, -1]) for _ in bl[1:]]
        return sp.block_diag(bl, format="csr"), sp.block_diag(sl, format="csr")
    R, S = rep()
    R2, S2 = rep()
    I = sp.eye(R.shape[0], format="csr")
    env = {"R": R, "S": S, "R2": R2, "S2": S2, "D1": [R, S], "D2": [R2, S2], "cc": [[I], [S]], "ct": np.array([[1, 1], [1, -1]]), "K": sp.kron(R, sp.eye(R2.shape[0]), "csr"), "L": sp.kron(sp.eye(R.shape[0]), R2, "csr")}
    pw = [np.linalg.matrix_power(R.toarray(), j) for j in range(n)]
    noise = np.where(sum(pw) > 0, np.array([[r.choice([0, 3e-13, -2e-12]) for _ in range(R.shape[0])] for _ in range(R.shape[0])]), 0)
    for k in (1, 2):      # projections with rounding noise, as sums of operators produce them
        env["p%d" % k] = sp.csr_matrix(sum(2 * np.cos(2 * np.pi * j * (k - 1) / n) / n * m for j, m in enumerate(pw)) + noise)
    env["rel"] = sp.csr_matrix(sum(pw) + np.eye(R.shape[0]) > 0).astype(float)
    D = {2: symm.getD2Projectors, 3: symm.getD3Projectors, 4: symm.getD4Projectors, 5: symm.getD5Projectors, 6: symm.getD6Projectors, 7: symm.getD7Projectors}
    gram = lambda ps: [p.conj().T * p if p.shape[0] else np.zeros((p.shape[1], p.shape[1])) for p in ps]
    qs = {"zn": (lambda u: [gram(symm.getZnProjectors(u, n)[0]), symm.getZnProjectors(u, n)[1]], dict(u=["@R", "@R2"])),
          "z2": (lambda u: gram(symm.getZnProjectors(u, 2)[0]), dict(u=["@S", "@S2"])),
          "dn": (lambda u: gram(D[n](*u)), dict(u=["@D1", "@D2"])),
          "red": (lambda p, d, c: gram([symm.reduce_symm_projector(p, d, c)]), dict(p=["@p1", "@p2"], d=[1, 2], c=["@rel"])),
          "tab": (lambda c, t: gram(symm.get_symmetry_projectors(t, c)), dict(c=["@cc"], t=["@ct"])),
          "t2": (lambda u, v: gram(symm.get2DTranslationProjectors(u, n, v, n)[0]), dict(u=["@K", "@L"], v=["@L", "@K"]))}
    return env, qs


def w_nlce(r, shape):
    def cl(n):
        pts = [(0, 0)]
        while len(pts) < n:
            a, b = r.choice(pts)
            q = r.choice([(a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)])
            if q not in pts:
                pts.append(q)
        mx, my = min(p[0] for p in pts), min(p[1] for p in pts)
        pts = sorted(((a - mx, b - my) for a, b in pts), key=lambda p: (p[0], -p[1]))
        g = Geometry.createSquareGeometry(2, 2)
        g = Geometry([float(p[0]) for p in pts], [float(p[1]) for p in pts], lattice=None)
        g.permute_sites(g.get_sorting_permutation())
        return g
    cs = [nlce.get_clusters_next_order()[0]]
    for _ in range(shape - 1):
        cs.append(nlce.get_clusters_next_order(cs[-1], use_symmetry=True)[0])
    k = 5
    M = np.tril(np.array([[r.randint(0, 3) for _ in range(k)] for _ in range(k)]), -1).astype(float)
    env = {"c1": cs[-1], "c2": cs[-2] if len(cs) > 1 else cs[-1], "p": cs[-1][r.randrange(len(cs[-1]))], "p2": cs[-1][r.randrange(len(cs[-1]))], "lv1": np.array([1, 0]), "lv2": np.array([0, 1]),
           "v": np.array([float(r.randint(-5, 5)) for _ in range(k)]), "v2": np.array([[float(r.randint(-5, 5)) for _ in range(2)] for _ in range(k)]), "M": sp.csr_matrix(M), "L": np.array([float(r.randint(1, 4)) for _ in range(k)]),
           "oi": [0, 1, 2, 4, 5], "os": np.array([[1.], [3.], [-2.], [.5]]), "os1": np.array([[2.]]), "os2": np.array([1., -1., 2.]), "orders": [c for c in cs]}
    qs = {"next": (lambda c, a, b, s: nlce.get_clusters_next_order(c, a, b, s)[:2], dict(c=["@c1", "@c2"], a=["@lv1"], b=["@lv2"], s=[True, False])),
          "next0": (lambda s: nlce.get_clusters_next_order(use_symmetry=s)[:2], dict(s=[True, False])),
          "all": (lambda n, s: nlce.get_all_clusters(n, use_symmetry=s), dict(n=[1, 2, 3], s=[True, False])),
          "table": (lambda n, s: nlce.get_all_clusters_with_subclusters(n, use_symmetry=s), dict(n=[1, 2, 3], s=[True, False])),
          "subs": (lambda p: nlce.get_all_subclusters(p), dict(p=["@p", "@p2"])),
          "subn": (lambda p: nlce.get_subclusters_next_order(p), dict(p=["@p", "@p2"])),
          "rsub": (lambda p, s: nlce.get_reduced_subclusters(p, use_symmetry=s), dict(p=["@p", "@p2"], s=[True, False])),
          "rel": (lambda p: nlce.get_clusters_rel_by_symmetry(p), dict(p=["@p", "@p2"])),
          "reduce": (lambda o, s: nlce.reduce_clusters_by_geometry(o, s), dict(o=["@orders"], s=[True, False])),
          "nlce": (lambda v, M, L, o, n: nlce.get_nlce_exp_val(v, M, L, o, n), dict(v=["@v", "@v2"], M=["@M"], L=["@L"], o=["@oi"], n=[1, 2])),
          "euler": (lambda o, y: nlce.euler_resum(o, y), dict(o=["@os"], y=[1., 2.]))}
    qs["euler"][1]["o"] = ["@os", "@os1"]
    return env, qs


def w_gas(r, shape):
    dim = shape
    n = r.choice([2, 3, 4])
    env = {"b": np.array([.5, 1., 2.]), "b1": np.array([1.5]), "mu": np.array([-.5, 0., 1.]), "mu1": np.array([.25]), "e": np.array([-2., 0., .5]), "e2": np.array([4.5, -1., 37.]), "k": np.array([[0., 1., 2.], [0., .5, 3.]]) if dim == "2d" else np.array([0., 1., 2.]),
           "k1": np.array([.5, 1.]), "es": np.array([-2., -1., -1., 0., 1., 2.]), "esu": np.array([1., -1., 2., 0., -1., -2.]), "pts": np.linspace(-2.5, 2.5, 6), "den": np.array([.3, .5]), "b2": np.array([.5, 1.])}
    B, M = ["@b", .7], ["@mu", .1]
    C = [(1, 0), (0, 0), (1, 1)] if dim == "2d" else [(1, 0), (0, 0)]
    qs = {"fermi": (lambda b, m, e: fg.fermi(b, m, e), dict(b=B, m=M, e=["@e", "@e2", .3])),
          "dfermi": (lambda b, m, e: fg.fermi_derivatives(b, m, e), dict(b=B, m=M, e=["@e", "@e2", .3])),
          "kv": (lambda n, m, o: fg.get_allowed_kvects(n, m, o), dict(n=[2, 3, 4], m=[1, 2, 3], o=["balanced", "positive"])),
          "space": (lambda e: fg.get_energy_spacing(e), dict(e=["@es", "@esu"])), "dos": (lambda e, p: fg.get_dos(e, p), dict(e=["@es", "@esu"], p=["@pts"])), "dos2": (lambda n, d: fg.get_dos2(n, d), dict(n=[4, 6], d=["1d", "2d"])),
          "kg": (lambda b, m, k, t, ty: fg.fg_kspace_gfns(b, m, k, t, ty, dim), dict(b=[.7, 1.5], m=[0., .5], k=["@k"], t=[0., .5], ty=["greater", "lesser", "retarded"])),
          "rg": (lambda b, m, c, t, ty: fg.fg_realspace_gfn(b, m, c, t, n, dim, ty), dict(b=B, m=[.1, .5], c=C, t=[.5, 1.], ty=["greater", "lesser"])),
          "den": (lambda b, m, n, d: fg.fg_density(b, m, n, d), dict(b=B, m=M, n=[3, 4], d=["1d", "2d"])),
          "mu": (lambda b, x, n: fg.fg_mu(b, x, n, dim), dict(b=["@b2", .7], x=["@den", .4], n=[3, 4])),
          "comp": (lambda b, m, n, d: fg.fg_compressibility(b, m, n, d), dict(b=B, m=M, n=[3, 4], d=["1d", "2d"])),
          "corr": (lambda b, m, c, n: fg.fg_corr(b, m, c, n, dim), dict(b=B, m=M, c=C, n=[3, 4])),
          "dresp": (lambda b, m, k, w: fg.fg_density_response(b, m, k, w, .5, 3, dim), dict(b=B, m=[.1], k=["@k1"], w=[0., .5])),
          "mresp": (lambda b, m, k, w: fg.fg_magnetic_response(b, m, k, w, .5, 3, dim), dict(b=B, m=[.1], k=["@k1"], w=[0., .5]))}
    for f in ("singles", "doubles"):
        qs[f] = (lambda b, m, m2, n, f=f: getattr(fg, "fg_" + f)(b, m, m2, n, dim), dict(b=B, m=M, m2=["@mu", .5], n=[3, 4]))
    for f in ("singles_corr", "doubles_corr", "sz_corr", "sx_corr"):
        qs[f] = (lambda b, m, m2, c, f=f: getattr(fg, "fg_" + f)(b, m, m2, c, 3, dim), dict(b=B, m=M, m2=["@mu", .5], c=C))
    return env, qs


def w_green(r, shape):
    n = 7
    beta = shape
    env = {"w": np.linspace(-3, 3, n), "A": np.array([float(r.randint(0, 4)) for _ in range(n)]) + .5, "A2": np.array([float(r.randint(0, 4)) for _ in range(n)]), "mf": np.pi / beta * np.array([-3., -1., 1., 3.]),
           "mb": np.pi / beta * np.array([-4., -2., 2., 4.]), "tau": np.linspace(0, beta, 6)[1:-1], "tu": np.linspace(0, beta, 6)[[3, 1, 4, 2]], "tfu": np.linspace(0, beta, 5)[[4, 0, 2, 1, 3]], "tf": np.linspace(0, beta, 5), "gt": np.array([.1, .3, -.2, .4, .5]), "gw": np.array([1 + 1j, 2., .5j, -1.]), "ek": np.array([-1., .5, 2.]),
           "ts": np.array([0., .5, 1.]), "chi": np.array([r.randint(-3, 3) + 1j * r.randint(-3, 3) for _ in range(n)]), "fw": np.array([r.randint(-3, 3) + 1j * r.randint(-3, 3) for _ in range(n)])}
    F = ["fermion", "boson"]
    qs = {"frq": (lambda b, x, f: gf.get_matsubara_frqs(b, x, f), dict(b=[.5, 1., 2.], x=[10., 20.], f=F)),
          "ifs": (lambda m, w, a: gf.get_grnfn_imagfrq_spectralfn(m, w, a), dict(m=["@mf", "@mb"], w=["@w"], a=["@A", "@A2"])),
          "its": (lambda t, w, a: gf.get_grnfn_imagtime_spectralfn(t, beta, w, a), dict(t=["@tau", "@tu"], w=["@w"], a=["@A", "@A2"])),
          "ifk": (lambda m, w, f: gf.get_grnfn_imagfrq_spectralfn_kernel(m, w, f), dict(m=["@mf"], w=["@w"], f=["fermion"])),
          "itk": (lambda t, w, f: gf.get_grnfn_imagtime_spectralfn_kernel(t, beta, w, f), dict(t=["@tau", "@tu"], w=["@w"], f=["fermion"])),
          "ft": (lambda m, t, g: gf.grnfn_imagtime_ft(m, t, g, beta), dict(m=["@mf", "@mb"], t=["@tf", "@tfu"], g=["@gt"])),
          "ift": (lambda t, m, g: gf.grnfn_imagfrq_ft(t, m, g, beta), dict(t=["@tau", "@tf", "@tu"], m=["@mf", "@mb"], g=["@gw"])),
          "ni": (lambda t, e: gf.get_noninteracting_gfn_tau(t, e, beta), dict(t=["@tau", "@tu"], e=[-1., .5])),
          "nif": (lambda x, e: gf.get_noninteracting_gfn_imagfrq(x, e, beta), dict(x=[3, 5], e=[-1., .5])),
          "nis": (lambda w, e, h: gf.get_noninteracting_spectral_fn(w, e, h), dict(w=["@w"], e=[-1., .5], h=[.1, .5])),
          "hyd": (lambda w, k, d2, g: gf.chi_hydro(w, k, 1., 2., d2, g), dict(w=["@w"], k=[.5, 1.], d2=[0, .5], g=[np.inf, 2.])),
          "snap": (lambda w, h, e: gf.field_snap_off_w(w, h, e), dict(w=["@w"], h=[1., 2.], e=[.1, .5])),
          "phi": (lambda t, w, c: gf.phi_t(t, w, c), dict(t=["@ts"], w=["@w"], c=["@chi", "@fw"])),
          "obs": (lambda t, w, c, f: gf.obs_kt(t, w, c, f), dict(t=["@ts"], w=["@w"], c=["@chi", "@fw"], f=["@fw", "@chi"]))}
    return env, qs


WORLDS = {"ops": (w_ops, [("fermion", 1), ("fermion", 2), ("fermion", 2), ("spin", 1), ("spin1", 1), ("boson", 1)]), "ham": (w_ham, [1, 2, 2, 3]), "spin": (w_spin, [.5, .5, 1]),
          "state": (w_state, [(1, True), (2, True), (1, False), (3, True), (2, False)]), "geom": (w_geom, [0, 1, 2, 3, 4]), "symm": (w_symm, [3, 4, 5, 6, 2]), "nlce": (w_nlce, [2, 3]),
          "gas": (w_gas, ["1d", "2d"]), "green": (w_green, [1., 2.])}


def build(world, k, seed):
    f, shapes = WORLDS[world]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(random.Random(seed), shapes[k % len(shapes)])


def ask(env, qs, q):
    name, args = q
    fn = qs[name][0]
    return fn(**{s: (env[v[1:]] if isinstance(v, str) and v.startswith("@") else v) for s, v in args.items()})


def answer(env, qs, q):
    """(value on the grid, raw result)"""
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            res = ask(env, qs, q)
    except Exception:
        return [-7], None
    return grid(res), res


# ------------------------------------------------------------------ answers of a fresh process
class Zygote:
    """a process in which nothing has been computed yet; every request is answered by a fork of it"""
    def __init__(self):
        self.rq, w1 = os.pipe()
        r2, self.wr = os.pipe()
        self.w1, self.r2 = w1, r2
        import sys
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            self.serve()
            os._exit(0)
        os.close(self.rq)
        os.close(self.wr)

    @staticmethod
    def _read(fd):
        h = b""
        while len(h) < 4:
            x = os.read(fd, 4 - len(h))
            if not x:
                return None
            h += x
        n = struct.unpack("I", h)[0]
        d = b""
        while len(d) < n:
            d += os.read(fd, n - len(d))
        return json.loads(d)

    @staticmethod
    def _write(fd, x):
        d = json.dumps(x).encode()
        d = struct.pack("I", len(d)) + d
        while d:
            d = d[os.write(fd, d):]

    def serve(self):
        import signal
        while True:
            rq = self._read(self.rq)
            if rq is None:
                return
            pid = os.fork()
            if pid == 0:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(110)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                v = [-8]
                try:
                    env, qs = build(rq["w"], rq["k"], rq["seed"])
                    name, args = rq["q"]
                    v = answer(env, qs, (name, {s: tuple(x) if isinstance(x, list) and rq["tup"].get(s) else x for s, x in args.items()}))[0]
                finally:
                    self._write(self.wr, v)
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, w, k, seed, q):
        self._write(self.w1, {"w": w, "k": k, "seed": seed, "q": [q[0], q[1]], "tup": {s: isinstance(x, tuple) for s, x in q[1].items()}})
        return self._read(self.r2)


# ------------------------------------------------------------------ sessions
def pick(r, qs, name=None):
    name = name or r.choice(sorted(qs))
    return name, {s: r.choice(v) for s, v in qs[name][1].items()}


def vary(r, qs, q):
    """the same question with one argument changed"""
    name, args = q
    slots = [s for s, v in qs[name][1].items() if len(v) > 1]
    if not slots:
        return pick(r, qs)
    s = r.choice(slots)
    return name, dict(args, **{s: r.choice([x for x in qs[name][1][s] if x != args[s]] or [args[s]])})


class Session:
    def __init__(self, rec, zy, tag, world, k, seed):
        self.rec, self.zy, self.tag, self.world, self.k = rec, zy, tag, world, k
        self.seed = {"A": seed, "B": seed + 1}
        self.n = 0
        self.last = None
        with rec_quiet():
            self.env = {o: build(world, k, s) for o, s in self.seed.items()}
        self.names = {o: publics(e[0]) for o, e in self.env.items()}
        self.rec.ev(self.id("start"), "start", {}, lambda: None, lambda r, q: {"objs": self.objs()})

    def id(self, op):
        self.n += 1
        return "%s#%d-%s" % (self.tag, self.n, op)

    def objs(self):
        return {o: {p: digest(x, self.names[o]) for p, x in e[0].items()} for o, e in self.env.items()}

    def key(self, o, q):
        return o + ":" + q[0] + json.dumps({s: str(v) for s, v in q[1].items()}, sort_keys=True)

    def ask(self, o, q):
        def go():
            env, qs = self.env[o]
            v, res = answer(env, qs, q)
            self.last = res
            return v
        self.rec.ev(self.id("ask-" + q[0]), "ask", {"key": self.key(o, q)}, go, lambda v, _: {"v": v, "objs": self.objs()})

    def fresh(self, o, q):
        self.rec.ev(self.id("fresh-" + q[0]), "fresh", {"key": self.key(o, q)}, lambda: self.zy.ask(self.world, self.k, self.seed[o], q), lambda v, _: {"v": v})

    def scribble(self):
        self.rec.ev(self.id("scribble"), "scribble", {}, lambda: scribble(self.last), lambda v, _: {"objs": self.objs()})
        self.last = None


def rec_quiet():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    zy = Zygote()
    hist = []
    if os.path.exists(GEN):
        with open(GEN) as fh:
            hist = json.load(fh)
    jobs = []
    worlds = sorted(WORLDS)
    # behaviours generated from the specification: three questions, two objects
    per = 260 if big else 60
    for w in worlds:
        for k, h in enumerate(rng.sample(hist, min(per, len(hist))) if hist else []):
            jobs.append((w, k, h, rng.randrange(10 ** 9)))
    # long random sessions that go through every question of a world
    for w in worlds:
        for k in range(20 if big else 5):
            jobs.append((w, k, None, rng.randrange(10 ** 9)))

    # sessions that put one question with (nearly) all its arguments
    for w in worlds:
        for k in range(6 if big else 2):
            for name in sorted(build(w, k, k)[1]):
                jobs.append((w, k, name, rng.randrange(10 ** 9)))
    rec.auto = False
    for n, (w, k, h, seed) in enumerate(share(jobs, part, nparts)):
        r = random.Random(seed)
        if rec.n > 250:
            rec.cut()
        with rec_quiet():
            S = Session(rec, zy, "%s-%d-%d" % (w, seed, k), w, k, seed)
            qs = S.env["A"][1]
            ok = lambda q, o: all(not (isinstance(v, str) and v.startswith("@")) or v[1:] in S.env[o][0] for v in q[1].values()) and q[0] in S.env[o][1] \
                and all(v in S.env[o][1][q[0]][1].get(s, ()) or isinstance(v, list) for s, v in q[1].items())
            if isinstance(h, str):
                if h not in qs:
                    continue
                slots = sorted(qs[h][1])
                every = [(h, dict(zip(slots, c))) for c in itertools.product(*(qs[h][1][s] for s in slots))]
                every = r.sample(every, min(len(every), 20))
                for q in every:
                    S.ask("A", q)
                for q in r.sample(every, len(every)):
                    S.fresh("A", q)
            elif h is not None:
                names = sorted(qs)
                q1 = pick(r, qs, names[(k + seed) % len(names)])
                Q3 = {1: q1, 2: vary(r, qs, q1), 3: pick(r, qs)}
                for st in h:
                    if st["act"] == "ask" and ok(Q3[st["q"]], st["obj"]):
                        S.ask(st["obj"], Q3[st["q"]])
                    elif st["act"] == "scribble" and S.last is not None:
                        S.scribble()
                asked = {(st["obj"], st["q"]) for st in h if st["act"] == "ask"}
                for o, j in sorted(asked):
                    if ok(Q3[j], o):
                        S.fresh(o, Q3[j])
            else:
                todo = []
                for name in sorted(qs):
                    q = pick(r, qs, name)
                    todo += [("A", q), ("A", vary(r, qs, q)), (r.choice("AB"), vary(r, qs, q)), ("A", q)]
                rest = todo[:]
                r.shuffle(rest)
                for o, q in rest:
                    if ok(q, o):
                        S.ask(o, q)
                        if S.last is not None and r.random() < .4:
                            S.scribble()
                for o, q in todo[::4] + todo[1::4]:
                    if ok(q, o):
                        S.fresh(o, q)
    os.close(zy.w1)


if __name__ == "__main__":
    main(run)
