import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from geos import desc, small_geoms
from drivers.c07 import rv, herm_ok
LN2 = float(np.log(2))


def geoms(r, maxn):
    """real geometry, integer positions, periods, metric, physical length of the coordinate units"""
    while True:
        k = r.randrange(7)
        tw = r.choice([0, 0, 1, 3])
        if k == 0:
            g, per, u, m = Geometry.createSquareGeometry(r.randint(2, maxn), 1), [], (1, 1), (1, 1)
        elif k == 1:
            n = r.randint(3, max(3, maxn))
            g, per, u, m = Geometry.createSquareGeometry(n, 1, 2 * np.pi * n * tw / 4, 0, bc1_open=False), [[n, 0]], (1, 1), (1, 1)
        elif k == 2:
            n = r.randint(3, max(3, maxn))
            g, per, u, m = Geometry.createSquareGeometry(1, n, 0, 2 * np.pi * n * tw / 4, bc2_open=False), [[0, n]], (1, 1), (1, 1)
        elif k == 3:
            a, b = r.choice([(2, 2), (2, 3), (3, 2)])
            p1, p2 = a == 3 and r.random() < .6, b == 3 and r.random() < .6
            g = Geometry.createSquareGeometry(a, b, bc1_open=not p1, bc2_open=not p2)
            per, u, m = ([[a, 0]] if p1 else []) + ([[0, b]] if p2 else []), (1, 1), (1, 1)
        elif k == 4:
            g = Geometry.createTiltedSquareGeometry(2, 1, 0, 0, bc1_open=False, bc2_open=False)
            per = [np.round(np.asarray(v)).astype(int).reshape(2).tolist() for v in (g.lattice.periodicity_vect1, g.lattice.periodicity_vect2)]
            u, m = (1, 1), (1, 1)
        elif k == 5:
            a, b = r.choice([(2, 1), (2, 2), (3, 1), (1, 3), (3, 2)])
            g, per, u, m = Geometry.createTriangleGeometry(a, b), [], (.5, 3 ** .5 / 2), (1, 3)
        else:
            n = r.randint(2, maxn)
            xs, ys = [float(r.randint(-3, 3)) for _ in range(n)], [float(r.randint(-3, 3)) for _ in range(n)]
            a = np.zeros((n, n))
            for i in range(n):
                for j in range(i):
                    a[i, j] = a[j, i] = r.randint(0, 1)
            g, per, u, m = Geometry.createNonPeriodicGeometry(xs, ys, a), [], (1, 1), (1, 1)
        if g.nsites > maxn:
            continue
        if r.random() < .3:
            p = list(range(g.nsites))
            r.shuffle(p)
            g.permute_sites(np.array(p))
        d = desc(g)
        if d["ph"] is None or not herm_ok(d):
            continue
        x = np.asarray(g.xlocs, dtype=float).ravel() / u[0]
        y = np.asarray(g.ylocs, dtype=float).ravel() / u[1]
        if abs(x - np.round(x)).max() > 1e-9 or abs(y - np.round(y)).max() > 1e-9:
            continue
        pos = [[int(round(a)), int(round(b))] for a, b in zip(x, y)]
        return g, d, {"pos": pos, "per": per, "g": list(m)}, u


def herm(r, n, cplx, lim=2):
    a = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(i + 1):
            z = 0 if r.random() < .3 else r.randint(-lim, lim) + (1j * r.randint(-1, 1) if cplx and i != j else 0)
            a[i, j] = z
            a[j, i] = np.conj(z)
    return a if cplx else a.real


def cm(a):
    return [[[int(round(complex(z).real)), int(round(complex(z).imag))] for z in row] for row in np.asarray(a)]


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 25
    jobs = []

    def current(k, seed):
        def go():
            r = random.Random(seed)
            ns = r.choice([1, 1, 2, 3])
            g, d, L, u = geoms(r, max(2, (7 if big else 6) // ns))
            n = d["n"]
            if n * ns > (8 if big else 6):
                return
            f = r.choice(["scalar", "species", "full"])
            if f == "full":
                t = np.zeros((n, n, ns), dtype=complex)
                for q in range(ns):
                    for i in range(n):
                        for j in range(i):
                            if r.random() < .6:
                                t[i, j, q] = rv(r) + 1j * rv(r)
                                t[j, i, q] = np.conj(t[i, j, q])
                tt = {"form": "full", "v": [[[[int(t[i, j, q].real), int(t[i, j, q].imag)] for q in range(ns)] for j in range(n)] for i in range(n)]}
                arg = t / 4
            elif f == "species" and ns > 1:
                v = [rv(r) for _ in range(ns)]
                tt = {"form": "species", "v": [[x, 0] for x in v]}
                arg = np.array(v) / 4
            else:
                v = rv(r)
                tt = {"form": "scalar", "v": [v, 0]}
                arg = v / 4
            M = fermions(g, 0, arg, nspecies=ns)
            if u == (1, 1):
                dirs = r.choice([[1, 0], [0, 1], [1, 1], [2, -1], [0, -3]])
                f2 = r.choice([1, 1, 2, 4])
                dv, sc = ([x / f2 for x in dirs] if f2 > 1 else dirs), 4 * f2
            else:
                c = r.randrange(2)
                s = r.choice([1, -2])
                dirs = [s, 0] if c == 0 else [0, s]
                dv, sc = dirs, 4 / u[c]
            sh = r.randrange(3)
            a = np.array(dv) if sh == 0 else (np.array(dv).reshape(2, 1) if sh == 1 else np.array(dv, dtype=float).reshape(1, 2))
            rec.ev("current-%d" % k, "current", {"S": system("fermion", n, ns), "G": d, "L": L, "t": tt, "d": dirs},
                   (lambda: M.get_current_op()) if dv == [1, 0] and r.random() < .5 else (lambda: M.get_current_op(a)),
                   lambda res, q: {"m": q.smat(res, sc)})
        return go

    def response(k, seed):
        def go():
            r = random.Random(seed)
            op = r.choice(["retarded", "retarded", "optical", "integral"])
            d = r.randint(1, 5 if big else 4)
            kk = r.choice([-1, 0, 1, 1, 2])
            if kk == 0:
                kk = 1
            E = sorted(r.choice([0, 1, 1, 2, 3]) for _ in range(d))
            if kk == -1 and d > 1 and E[0] == E[1]:
                E[0] -= 1
            E = [x - E[0] for x in E]
            m = kk * E[-1] if kk > 0 else 2
            lo = r.randint(-4, 4)
            E = [x + lo for x in E]
            nsites = r.randint(1, 4)
            M = fermions(chain(nsites), 0, 1, nspecies=1)
            en = np.array(E, dtype=float) if r.random() < .7 else np.array(E)
            if op == "retarded":
                A = np.array([[r.randint(-2, 2) + (1j * r.randint(-1, 1) if k % 2 else 0) for _ in range(d)] for _ in range(d)])
                c = r.randrange(3)
                B = A if c == 0 else (A.conj().T.copy() if c == 1 else np.array([[r.randint(-2, 2) for _ in range(d)] for _ in range(d)]))
            else:
                A = herm(r, d, k % 2 == 1)
                B = A
            # units of energy and of the operators: the results scale with them
            eu = r.choice([1., 1., 1., 1 / 16, 32.])
            au = r.choice([1., 1., 1 / 512, 16.])
            Ei, Ai, Bi = E, A, B
            if eu != 1:
                en = np.array(E) * eu
            if au != 1:
                same = B is A
                A = A * au
                B = A if same else B * au
            T = 0 if kk == -1 else eu / (kk * LN2)
            T = r.choice([T, np.float64(T)])
            ws = [[r.choice([-7, -4, -3, -2, -1, 1, 2, 3, 4, 6, 9]), r.choice([1, 1, 2, 3, 4])] for _ in range(4)]
            if op == "retarded":
                ws.append([0, 2])
                ws.append([r.choice([-61, -35, 41, 44, 57]), 1])
            elif op == "optical":
                ws.append([r.choice([-25, 31]), 1])
            fermi = r.random() < .5
            keep = (A.copy(), B.copy(), en.copy())
            kw = {"print_results": True} if k % 4 == 0 else {}

            def call():
                if op == "retarded":
                    fn = M.get_response_fn_retarded(A, B, en, T, **(dict(kw, format="fermion") if fermi else (dict(kw, format="boson") if k % 3 else kw)))
                elif op == "optical":
                    fn = M.get_optical_cond_fn(A, en, T, **kw)
                else:
                    return [M.integrate_conductivity(A, en, T, **kw) / np.pi * eu / au ** 2]
                return [fn(w * eu / 2, h * eu / 2) * eu ** (2 if op == "optical" else 1) / au ** 2 for w, h in ws]

            def enc(res, q):
                return {"v": [q.near(x, 10000) for x in res],
                        "pure": bool(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]) and np.array_equal(en, keep[2]))}
            rec.ev("%s-%d" % (op, k), op, {"A": cm(Ai), "B": cm(Bi), "e": E, "m": m, "k": kk, "fermi": fermi, "w": ws, "n": nsites}, call, enc)
        return go
    for k in range(600 if big else 110):
        jobs.append(current(k, rng.randrange(10 ** 9)))
    for k in range(1500 if big else 240):
        jobs.append(response(k, rng.randrange(10 ** 9)))

    def bad(k, f):
        def go():
            M = fermions(chain(2), 0, 1, nspecies=1)
            rec.ev("badformat-%d" % k, "badformat", {"A": [], "B": [], "e": [0], "m": 0, "k": 1, "fermi": False, "w": [], "n": 2},
                   lambda: M.get_response_fn_retarded(np.eye(2), np.eye(2), np.array([0., 1.]), 1., format=f), lambda r_, q: {})
        return go
    for k, f in enumerate(["bosons", "", "Fermion", None]):
        jobs.append(bad(k, f))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
