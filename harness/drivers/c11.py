import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from symlib import *
from geos import desc


def site_perm(geom, f):
    """1-based image of each site under the point map f, modulo the periods"""
    n = geom.nsites
    L = geom.lattice
    out = []
    for i in range(n):
        z = np.asarray(f(np.array([geom.xlocs[i]]), np.array([geom.ylocs[i]])), dtype=float).reshape(2)
        best = None
        rng = range(-2, 3)
        for j in range(n):
            for a in (rng if L is not None and abs(L.periodicity_vect1).sum() else (0,)):
                for b in (rng if L is not None and abs(L.periodicity_vect2).sum() else (0,)):
                    p = np.array([geom.xlocs[j], geom.ylocs[j]], dtype=float).reshape(2)
                    if L is not None:
                        p = p + a * np.asarray(L.periodicity_vect1).reshape(2) + b * np.asarray(L.periodicity_vect2).reshape(2)
                    if abs(p - z).max() < 1e-6:
                        best = j
        if best is None:
            return None
        out.append(best + 1)
    return out


def zrot(n, c=(0, 0)):
    w = np.exp(2j * np.pi / n)

    def f(x, y):
        z = (x[0] - c[0] + 1j * (y[0] - c[1])) * w
        return [z.real + c[0], z.imag + c[1]]
    return f


def zmir(axis, c=(0, 0)):
    """reflection about the line along axis"""
    a = (axis[0] + 1j * axis[1]) ** 2 / (axis[0] ** 2 + axis[1] ** 2)

    def f(x, y):
        z = a * np.conj(x[0] - c[0] + 1j * (y[0] - c[1]))
        return [z.real + c[0], z.imag + c[1]]
    return f


def ztr(v):
    return lambda x, y: [x[0] + v[0], y[0] + v[1]]


DN = {2: "getD2Projectors", 3: "getD3Projectors", 4: "getD4Projectors", 5: "getD5Projectors", 6: "getD6Projectors", 7: "getD7Projectors"}


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 4
    jobs = []
    maxd = 81 if big else 40

    def go_case(id, grp, n, n2, geom, fns, zf, kind, N, seed):
        def go():
            r = random.Random(seed)
            ns = len(N) if kind == "fermion" else 1
            G = desc(geom)
            if G["ph"] is None:
                return
            perms = [site_perm(geom, f) for f in zf]
            if any(x is None for x in perms):
                return
            orb = list(range(geom.nsites))      # sites that the symmetries exchange
            for _ in orb:
                for pm in perms:
                    for a_, b_ in enumerate(pm):
                        orb[a_] = orb[b_ - 1] = min(orb[a_], orb[b_ - 1])

            def persite(vals, zero=.3):
                """one integer per site, equal on equivalent sites"""
                c = {o: 0 if r.random() < zero else r.choice(vals) for o in set(orb)}
                return [c[o] for o in orb]
            if kind == "fermion":
                t = [r.choice([1, -1, 2]) for _ in range(ns)]
                U = r.choice([0, 1, 3, -2, 4]) if ns == 2 else 0
                V = r.choice([0, 0, 1, -1])
                mu = [r.choice([0, 1, -1]) for _ in range(ns)]
                nst = geom.nsites
                us = persite([U, 1]) if ns == 2 and U and r.random() < .4 else [U] * nst
                pot = [persite([1, -1, 2]) if r.random() < .6 else [0] * nst for _ in range(ns)]
                m = fermions(geom, np.array(us, dtype=float), [float(x) for x in t] if ns > 1 else float(t[0]), mus=np.array(mu, dtype=float),
                             us_same_species=float(V), potentials=np.array(pot, dtype=float).T.reshape(nst, ns),
                             ns=[None if x < 0 else x for x in N], nspecies=ns)
                p = {"t": {"form": "species", "v": [[x, 0] for x in t]}, "u": {"form": "site", "v": us},
                     "v": {"form": "scalar", "v": V}, "mu": {"form": "species", "v": mu}, "pot": {"form": "full", "v": [list(x) for x in zip(*pot)]}}
                base = m.n_projector
                esc = 1
            else:
                jx, jy, jz = r.choice([1, 2, 0]), r.choice([1, 0, -1]), r.choice([1, -1, 2])
                hx, hy, hz = persite([0, 1, 2]), persite([1, -1], .7), persite([0, 1])
                m = spinSystem(geom, jx=float(jx), jy=float(jy), jz=float(jz), hx=np.array(hx, dtype=float), hy=np.array(hy, dtype=float),
                               hz=np.array(hz, dtype=float))
                p = {"jx": {"form": "scalar", "v": jx}, "jy": {"form": "scalar", "v": jy}, "jz": {"form": "scalar", "v": jz},
                     "hx": {"form": "site", "v": hx}, "hy": {"form": "site", "v": hy}, "hz": {"form": "site", "v": hz}, "ryd": False}
                base = sp.eye(m.nstates, format="csr")
                esc = 2
            d = base.shape[0]
            if d == 0 or d > maxd:
                return
            K = 3
            S = system(kind, geom.nsites, ns)

            def call():
                ops = []
                for f in fns:
                    cyc, _ = symm.findSiteCycles(f, geom)
                    ops.append((base * m.get_xform_op(cyc) * base.conj().transpose()).tocsr())
                k1 = k2 = None
                if grp == "zn":
                    ps, k1 = symm.getZnProjectors(ops[0], n)
                elif grp == "t2":
                    ps, k1, k2 = symm.get2DTranslationProjectors(ops[0], n, ops[1], n2)
                elif grp == "dn":
                    ps = getattr(symm, DN[n])(ops[0], ops[1])
                else:
                    ps = symm.getC4V_and_3byb3(*ops)
                full = m.createH(projector=base)
                es = []
                for P in ps:
                    if P.shape[0] == 0:
                        es.append(np.zeros(0))
                        continue
                    h = m.createH(projector=P * base)
                    es.append(m.diagH(h)[0])
                off = 0.
                for a in range(len(ps)):
                    for b in range(a):
                        if ps[a].shape[0] and ps[b].shape[0]:
                            off = max(off, abs((ps[a] * full * ps[b].conj().transpose()).toarray()).max())
                return es, off, m.diagH(full)[0], k1, k2

            def enc(res, q):
                es, off, fe, k1, k2 = res

                def pw(x):
                    return [q.near(np.sum((esc * np.asarray(x)) ** k), 1000) for k in range(K + 1)]
                o = {"m": [pw(x) for x in es], "d": [int(len(x)) for x in es], "off": q.near(off, 10 ** 6), "full": pw(fe)}
                o["k1"] = q.vec(np.asarray(k1) * n / (2 * np.pi)) if grp in ("zn", "t2") else []
                o["k2"] = q.vec(np.asarray(k2) * n2 / (2 * np.pi)) if grp == "t2" else []
                return o
            rec.ev("%s-%s" % (id, "".join(map(str, N)) if kind == "fermion" else "spin"), grp,
                   {"grp": grp, "n": n, "n2": n2, "S": S, "G": G, "p": p, "ns": list(N) if kind == "fermion" else [-1], "perms": perms, "K": K},
                   call, enc)
        return go

    def add(id, grp, n, n2, geom, fns, zf, cap=5, twist=False):
        N = geom.nsites
        from math import comb
        opts = []
        for a in range(N + 1):
            if comb(N, a) <= maxd:
                opts.append(("fermion", (a,)))
            for b in range(N + 1):
                if comb(N, a) * comb(N, b) <= maxd and N <= 9:
                    opts.append(("fermion", (a, b)))
        if N <= 2:
            opts += [("fermion", (1, 1, 1)), ("fermion", (2, 1, 0)), ("fermion", (-1,)), ("fermion", (-1, 1))]
        if 2 ** N <= maxd and not twist:
            opts += [("spin", ())] * 3
        pick = opts if big else rng.sample(opts, min(cap, len(opts)))
        if 2 ** N <= maxd and not big and not twist:
            pick.append(("spin", ()))
        for kind, c in pick:
            if kind == "fermion" and len(c) == 1 and c[0] == -1 and 2 ** N > maxd:
                continue
            jobs.append(go_case(id, grp, n, n2, geom, fns, zf, kind, c, rng.randrange(10 ** 9)))

    for n in range(2, 8):
        g = Geometry.createSquareGeometry(n, 1, bc1_open=False)
        add("chain%d" % n, "zn", n, 0, g, [symm.getTranslFn(np.array([1, 0]))], [ztr((1, 0))])
        tw = rng.choice([1, 2, 3])
        if n >= 3:
            gt = Geometry.createSquareGeometry(n, 1, 2 * np.pi * n * tw / 4, 0, bc1_open=False)
            add("twist%d" % n, "zn", n, 0, gt, [symm.getTranslFn(np.array([1, 0]))], [ztr((1, 0))], 3, twist=True)
            gp = Geometry.createRegularPolygonGeometry(n)
            add("polyz%d" % n, "zn", n, 0, gp, [symm.getRotFn(n)], [zrot(n)], 3)
            add("polyd%d" % n, "dn", n, 0, gp, [symm.getRotFn(n), symm.getReflFn(np.array([0, 1]))], [zrot(n), zmir((0, 1))])
    for a, b in ((2, 1), (3, 1), (2, 2), (3, 2), (2, 3)):
        g = Geometry.createSquareGeometry(a, b)
        c = ((a - 1) / 2, (b - 1) / 2)
        add("rect%d%d" % (a, b), "dn", 2, 0, g, [symm.getRotFn(2, *c), symm.getReflFn(np.array([0, 1]), *c)], [zrot(2, c), zmir((0, 1), c)])
        if a == b:
            add("sq%d" % a, "dn", 4, 0, g, [symm.getRotFn(4, *c), symm.getReflFn(np.array([0, 1]), *c)], [zrot(4, c), zmir((0, 1), c)])
            add("sqz%d" % a, "zn", 4, 0, g, [symm.getRotFn(4, *c)], [zrot(4, c)])
            add("inv%d" % a, "zn", 2, 0, g, [symm.getInversionFn(*c)], [zrot(2, c)])
    g = Geometry.createSquareGeometry(3, 3)
    add("sq3", "dn", 4, 0, g, [symm.getRotFn(4, 1, 1), symm.getReflFn(np.array([1, 1]), 1, 1)], [zrot(4, (1, 1)), zmir((1, 1), (1, 1))])
    for a, b in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2)):
        g = Geometry.createSquareGeometry(a, b, bc1_open=False, bc2_open=False)
        add("torus%d%d" % (a, b), "t2", a, b, g, [symm.getTranslFn(np.array([1, 0])), symm.getTranslFn(np.array([0, 1]))],
            [ztr((1, 0)), ztr((0, 1))])
    for a, b in ((3, 2), (3, 3)):
        t1, t2 = rng.choice([0, 1, 3]), rng.choice([1, 2, 3]) if b > 2 else 0
        g = Geometry.createSquareGeometry(a, b, 2 * np.pi * a * t1 / 4, 2 * np.pi * b * t2 / 4, bc1_open=False, bc2_open=False)
        add("twtor%d%d" % (a, b), "t2", a, b, g, [symm.getTranslFn(np.array([1, 0])), symm.getTranslFn(np.array([0, 1]))],
            [ztr((1, 0)), ztr((0, 1))], 3, twist=True)
    g = Geometry.createSquareGeometry(3, 3, bc1_open=False, bc2_open=False)
    fns = [symm.getRotFn(4, 1, 1), symm.getReflFn(np.array([0, 1]), 1, 1), symm.getTranslFn(np.array([1, 0])), symm.getTranslFn(np.array([0, 1]))]
    add("full33", "w", 3, 3, g, fns, [zrot(4, (1, 1)), zmir((0, 1), (1, 1)), ztr((1, 0)), ztr((0, 1))], 4)
    g = Geometry.createTiltedSquareGeometry(2, 1, 0, 0, bc1_open=False, bc2_open=False)
    add("tilt", "zn", 5, 0, g, [symm.getTranslFn(np.array([1, 0]))], [ztr((1, 0))])
    add("tiltr", "zn", 4, 0, g, [symm.getRotFn(4)], [zrot(4)])

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
