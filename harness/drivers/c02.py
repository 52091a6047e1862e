import math
import numpy as np
from core import main, share
from geomlib import *
from exact_diag.ed_geometry import Geometry, Lattice


def enc_phase(q, ph, T):
    ph = np.asarray(ph)
    uni = bool(np.allclose(np.abs(ph), 1, atol=1e-8))
    out = []
    for row in ph:
        out.append([q.i((np.angle(complex(z)) / (2 * np.pi)) * T, 1, 1e-4) % T for z in row])
    return out, uni


def snapshot(q, g, qy, T):
    ph, uni = enc_phase(q, g.phase_mat, T)
    return {"nsites": int(g.nsites), "sites": encpts(q, g.xlocs, g.ylocs, qy),
            "dx": q.mat(g.xdist_mat, 2), "dy": q.mat(g.ydist_mat, ysc(qy)), "adj": q.mat(g.adjacency_mat),
            "ph": ph, "unimod": uni}


def frac_dens(L):
    z = [0, 0]

    def n2(p):
        return L["qx"] * p[0] ** 2 + L["qy"] * p[1] ** 2
    if L["p1"] == z and L["p2"] == z:
        return 1, 1
    if L["p2"] == z:
        return n2(L["p1"]), 1
    if L["p1"] == z:
        return 1, n2(L["p2"])
    c = abs(cross(L["p1"], L["p2"]))
    return c, c


def grid(L):
    a, b = frac_dens(L)
    return math.lcm(L["fd"] * a, L["fd"] * b)


def named(kind, n, m):
    if kind == "square":
        return blank(p1=[2 * n, 0], p2=[0, 2 * m])
    if kind == "tilted":
        return blank(p1=[2 * n, 2 * m], p2=[-2 * m, 2 * n])
    if kind == "triangle":
        return blank(l2=[1, 1], p1=[2 * n, 0], p2=[m, m], qy=3)
    return blank(l1=[3, 1], l2=[3, -1], basis=[[-2, 0], [-1, 1]], p1=[6 * n, 0], p2=[0, 2 * m], qy=3)


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []
    rec.max_events = 60

    def emit(id, L, o1, o2, f, build):
        L = dict(L, f1=f[0], f2=f[1], fd=f[2])
        if o1:
            L["p1"] = [0, 0]
        if o2:
            L["p2"] = [0, 0]
        T = grid(L)
        ph = (2 * np.pi * f[0] / f[2], 2 * np.pi * f[1] / f[2])

        def go():
            rec.ev(id, "geom", {"L": L, "T": T, "ph": True}, lambda: build(ph),
                   lambda g, q: snapshot(q, g, L["qy"], T))
        jobs.append(go)

    NS = 7 if big else 5
    twists = [(0, 0, 1), (1, 0, 2), (1, 2, 3), (1, 3, 8), (-1, 2, 5), (0, 1, 4)]
    k = 0
    for kind in KINDS:
        for n in range(1, NS + 1):
            for m in range(0 if kind == "tilted" else 1, NS + 1):
                ns = {"square": n * m, "triangle": n * m, "tilted": n * n + m * m, "hex": 4 * n * m}[kind]
                if ns > (50 if big else 26):
                    continue
                for o1 in (0, 1):
                    for o2 in (0, 1):
                        if kind != "tilted" and ((n == 1 and not o1) or (m == 1 and not o2)):
                            continue
                        k += 1
                        f = twists[k % len(twists)]
                        fn = KINDS[kind][0]
                        emit("%s-%d-%d-%d%d" % (kind, n, m, o1, o2), named(kind, n, m), o1, o2, f,
                             lambda ph, fn=fn, n=n, m=m, o1=o1, o2=o2: fn(n, m, ph[0], ph[1], bool(o1), bool(o2)))
    for n, m, o1, o2 in ((10, 1, 0, 1), (9, 2, 0, 0), (1, 11, 1, 0), (2, 8, 0, 0)):
        emit("square-%d-%d-%d%d" % (n, m, o1, o2), named("square", n, m), o1, o2, (1, 1, 6),
             lambda ph, n=n, m=m, o1=o1, o2=o2: Geometry.createSquareGeometry(n, m, ph[0], ph[1], bool(o1), bool(o2)))
    # general lattices through the generic constructor
    for k in range(160 if big else 48):
        L = rand_lattice(rng, 14)
        if len(L["basis"]) > 2:
            L["basis"] = L["basis"][:2]
        o1, o2 = rng.random() < .25, rng.random() < .25
        f = (rng.randint(-2, 3), rng.randint(-2, 3), rng.choice([1, 2, 3, 4, 6]))
        a = lat_args(L)
        emit("lat-%d" % k, L, o1, o2, f,
             lambda ph, a=a, o1=o1, o2=o2: Geometry.create_lattice_geom(phase1=ph[0], phase2=ph[1], bc1_open=o1, bc2_open=o2, **a))

    # separations in numbers of lattice vectors
    for k in range(120 if big else 40):
        L = rand_lattice(rng, 12)
        if k % 4 == 0:
            L["p1"] = [0, 0]
        if k % 5 == 0:
            L["p2"] = [0, 0]
        pts = [[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(rng.randint(1, 7))]
        if k % 2:
            pts = [[x * L["l1"][0] + y * L["l2"][0], x * L["l1"][1] + y * L["l2"][1]] for x, y in pts]

        def go(k=k, L=L, pts=pts):
            xs, ys = zip(*(dec(p, L["qy"]) for p in pts))
            rec.ev("counts-%d" % k, "counts", {"L": L, "sites": pts},
                   lambda: Lattice(*lat_args(L).values()).get_reduced_distance(np.array(xs), np.array(ys)),
                   lambda r, q: {"dx": q.mat(r[0], 2), "dy": q.mat(r[1], ysc(L["qy"])), "n1": q.mat(r[2]), "n2": q.mat(r[3])})
        jobs.append(go)

    # non-lattice clusters
    def free(id, sites, adj=None, phr=None, T=1, mod=None, form=0):
        def go():
            xs = [s[0] / 2 for s in sites]
            ys = [s[1] / 2 for s in sites]
            if form == 1:
                xs, ys = np.array(xs), np.array(ys)
            elif form == 2:
                xs, ys = np.array(xs)[None, :], np.array(ys)[:, None]
            A = None if adj is None else np.array(adj)
            P = None
            if phr is not None:
                P = np.exp(2j * np.pi * np.array(phr) / T)
                if mod is not None:
                    P = P * mod
            inp = {"sites": sites, "hasadj": adj is not None, "adj": adj if adj is not None else [],
                   "hasph": phr is not None, "phr": phr if phr is not None else [], "phmod": mod is None, "T": T}
            rec.ev(id, "free", inp, lambda: Geometry.createNonPeriodicGeometry(xs, ys, A, P) if (A is not None or P is not None)
                   else Geometry.createNonPeriodicGeometry(xs, ys), lambda g, q: snapshot(q, g, 1, T))
        jobs.append(go)

    for k in range(240 if big else 120):
        n = rng.randint(1, 8)
        sites = []
        while len(sites) < n:
            s = [2 * rng.randint(-3, 3), 2 * rng.randint(-3, 3)]
            if s not in sites:
                sites.append(s)
        adj = phr = None
        T = 1
        mod = None
        if k % 3 == 1:
            adj = [[0] * n for _ in range(n)]
            for a in range(n):
                for b in range(a):
                    adj[a][b] = adj[b][a] = rng.randint(0, 1)
            if k % 6 == 1 and n > 1:      # spoil it
                w = (k // 6) % 6
                if w == 0 or (n < 3 and w == 3):
                    adj[n - 1][0] = 1 - adj[n - 1][0]
                elif w == 3:              # as many neighbours in as out
                    adj = [[1 if (a - b) % n == 1 else 0 for b in range(n)] for a in range(n)]
                elif w == 4:
                    adj[n - 1][0] = adj[0][n - 1] = -1
                elif w == 5:
                    adj = [r + [0] for r in adj] + [[0] * (n + 1)]
                elif w == 1:
                    adj[n - 1][0] = adj[0][n - 1] = 2
                else:
                    adj = [r[:-1] for r in adj[:-1]]
        if k % 3 == 2:
            T = rng.choice([2, 3, 8, 12])
            phr = [[0] * n for _ in range(n)]
            for a in range(n):
                for b in range(a):
                    phr[a][b] = rng.randint(0, T - 1)
                    phr[b][a] = (-phr[a][b]) % T
            if k % 6 == 2 and n > 1:
                w = (k // 6) % 4
                if w == 2:
                    phr = [r + [0] for r in phr] + [[0] * (n + 1)]
                elif w == 3:
                    phr = [r[:-1] for r in phr[:-1]]
                elif w == 0:
                    T = 12 if T == 2 else T
                    phr[n - 1][0] = (phr[n - 1][0] + 1) % T
                else:
                    mod = np.ones((n, n))
                    mod[0, n - 1] = mod[n - 1, 0] = .5
        free("free-%d" % k, sites, adj, phr, T, mod, k % 3)

    for n in range(2, 15 if big else 10):
        for ha in (0, 1):
            def go(n=n, ha=ha):
                adj = []
                if ha:
                    adj = [[1 if (a - b) % n in (2, n - 2) else 0 for b in range(n)] for a in range(n)]
                rec.ev("poly-%d-%d" % (n, ha), "poly", {"n": n, "hasadj": bool(ha), "adj": adj},
                       lambda: Geometry.createRegularPolygonGeometry(n, np.array(adj)) if ha else Geometry.createRegularPolygonGeometry(n),
                       lambda g, q: {"adj": q.mat(g.adjacency_mat), "cx": q.near(g.get_center_of_mass()[0], 10000),
                                     "cy": q.near(g.get_center_of_mass()[1], 10000),
                                     "d2": [[q.near(x, 10000) for x in row] for row in g.xdist_mat ** 2 + g.ydist_mat ** 2]})
            jobs.append(go)

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
