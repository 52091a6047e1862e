import numpy as np
from core import main, share
from geomlib import *
from exact_diag.ed_geometry import Geometry, Lattice, reduce_vectors, get_reciprocal_vects


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []

    def ctor(kind, n, m, o1, o2, ph=(0, 0)):
        fn, qy = KINDS[kind]

        def go():
            def enc(g, q):
                la = g.lattice
                return {"nsites": int(g.nsites), "sites": encpts(q, g.xlocs, g.ylocs, qy),
                        "p1": encvec(q, la.periodicity_vect1, qy), "p2": encvec(q, la.periodicity_vect2, qy),
                        "l1": encvec(q, la.lattice_vect1, qy), "l2": encvec(q, la.lattice_vect2, qy)}
            rec.ev("ctor-%s-%d-%d-%d%d" % (kind, n, m, o1, o2), "ctor",
                   {"kind": kind, "n": n, "m": m, "o1": bool(o1), "o2": bool(o2)},
                   lambda: fn(n, m, ph[0], ph[1], bool(o1), bool(o2)), enc)
        return go

    N = 9 if big else 6
    for kind in KINDS:
        for n in range(1, N + 1):
            for m in range(0 if kind == "tilted" else 1, N + 1):
                if kind == "hex" and n * m > (40 if big else 20):
                    continue
                for o1 in (0, 1):
                    for o2 in (0, 1):
                        jobs.append(ctor(kind, n, m, o1, o2))
    for n, m in ((12, 1), (1, 13), (11, 2)):
        jobs.append(ctor("square", n, m, n == 1, m == 1))
        jobs.append(ctor("triangle", n, m, n == 1, m == 1))

    # negative tilts
    for n, m in ((3, -1), (-2, 1), (-1, -2), (0, 3), (2, -2)):
        jobs.append(ctor("tilted", n, m, 0, 0))

    def lat(k, L, form):
        def go():
            a = lat_args(L)
            if form == 1:      # plain 1D vectors
                a = {k: ([v.ravel() for v in x] if k == "basis_vects" else x.ravel()) for k, x in a.items()}
            elif form == 2:    # lists
                a = {k: ([list(v.ravel()) for v in x] if k == "basis_vects" else list(x.ravel())) for k, x in a.items()}

            def call():
                la = Lattice(a["latt_vect1"], a["latt_vect2"], a["basis_vects"], a["periodicity_vect1"],
                             a["periodicity_vect2"])
                return la.get_unique_sites()

            def call2():
                g = Geometry.create_lattice_geom(bc1_open=bool(k % 2), bc2_open=bool(k % 3 == 0), **a)
                return g.nsites, g.xlocs, g.ylocs
            rec.ev("lattice-%d-%d" % (k, form), "lattice", {"L": L}, call if k % 2 == 0 else call2,
                   lambda r, q: {"nsites": int(r[0]), "sites": encpts(q, r[1], r[2], L["qy"])})
        return go

    r2 = rng
    for k in range(600 if big else 120):
        jobs.append(lat(k, rand_lattice(r2, 40 if big else 16), k % 3))
    # descriptions that are not lattices
    kk = 1000
    for L in [blank(l1=[2, 0], l2=[4, 0], p1=[4, 0], p2=[0, 4]), blank(l1=[2, 0], l2=[0, 0], p1=[4, 0], p2=[0, 4]),
              blank(l1=[0, 0], l2=[0, 2], p1=[4, 0], p2=[0, 4]),
              blank(p1=[4, 0], p2=[8, 0]), blank(p1=[4, 2], p2=[-4, -2]), blank(p1=[5, 0], p2=[0, 4]),
              blank(p1=[4, 0], p2=[0, 3]), blank(p1=[3, 3], p2=[-2, 2]), blank(p1=[4, 0], p2=[1, 4]),
              blank(p1=[5, 3], p2=[0, 2]), blank(l1=[4, 0], p1=[8, 0], p2=[2, 4]), blank(l1=[4, 0], p1=[8, 2], p2=[2, 2]),
              blank(l1=[4, 0], l2=[0, 4], p1=[4, 4], p2=[-4, 2]),
              blank(l1=[2, 0], l2=[1, 1], qy=3, p1=[4, 0], p2=[0, 1]), blank(l1=[2, 0], l2=[1, 1], qy=3, p1=[5, 1], p2=[0, 2]),
              blank(l1=[2, 0], l2=[1, 1], qy=3, p1=[4, 0], p2=[2, 1])]:
        for form in range(2):
            jobs.append(lat(kk, L, form))
        kk += 1
    for k in range(80 if big else 20):        # shift a period off the lattice
        L = rand_lattice(r2, 12)
        w = r2.choice(["p1", "p2"])
        L[w] = [L[w][0] + r2.randint(0, 1), L[w][1] + r2.randint(-1, 1)]
        if L["p1"] == [0, 0] or L["p2"] == [0, 0] or cross(L["p1"], L["p2"]) == 0:
            continue
        jobs.append(lat(2000 + k, L, k % 3))

    # the same lattices in other units of length, and with sites close to each other
    def fine(k, f, sc):
        for _ in range(200):
            L = rand_lattice(rng, 6)
            m = max(abs(x) for v in (L["l1"], L["l2"], L["p1"], L["p2"]) for x in v) * f
            if 5 * m * m >= 2 ** 31:
                continue
            for v in ("l1", "l2", "p1", "p2"):
                L[v] = [x * f for x in L[v]]
            b = [x * f for x in L["basis"][0]]
            L["basis"] = [b] + [[b[0] + rng.choice([0, 1, -1, 2, f // 2, f]), b[1] + rng.choice([0, 0, 1, -3, f])] for _ in range(rng.choice([0, 1, 2]))]
            break
        else:
            return None
        u = sc / f

        def go():
            def v2(v):
                return [v[0] * u / 2, v[1] * u / 2 * (S3 if L["qy"] == 3 else 1)]

            def enc(r, q):
                return {"nsites": int(r[0]), "sites": [[q.i(x, 2 / u, 1e-5), q.i(y, 2 / u / (S3 if L["qy"] == 3 else 1), 1e-5)] for x, y in zip(r[1], r[2])]}
            rec.ev("fine-%d" % k, "lattice", {"L": L},
                   lambda: Lattice(v2(L["l1"]), v2(L["l2"]), [v2(b) for b in L["basis"]], v2(L["p1"]), v2(L["p2"])).get_unique_sites(), enc)
        return go
    for k in range(240 if big else 60):
        j = fine(k, rng.choice([1, 10, 1000, 4096]), rng.choice([1., 1., .1, .37, 7.3]))
        if j:
            jobs.append(j)

    def red(k, L, mode, vs, via, shape):
        def go():
            P1, P2 = np.array(dec(L["p1"], L["qy"])), np.array(dec(L["p2"], L["qy"]))
            xs = np.array([dec(v, L["qy"])[0] for v in vs])
            ys = np.array([dec(v, L["qy"])[1] for v in vs])
            if shape == 1:
                xs, ys = xs[None, :], ys[None, :]
                P1, P2 = P1[:, None], P2[:, None]
            elif shape == 2:
                xs, ys, P1, P2 = list(xs), list(ys), list(P1), list(P2)
            keep = [np.array(z, copy=True) for z in (P1, P2, xs, ys)]

            def call():
                if via:
                    a = lat_args(L)
                    la = Lattice(a["latt_vect1"], a["latt_vect2"], a["basis_vects"], P1, P2)
                    if mode == "default":
                        return la.reduce_to_unit_cell(xs, ys)
                    return la.reduce_to_unit_cell(xs, ys, mode=mode)
                if mode == "default":
                    return reduce_vectors(P1, P2, xs, ys)
                return reduce_vectors(P1, P2, xs, ys, mode=mode)

            def enc(r, q):
                pure = all(np.array_equal(np.asarray(a), b) for a, b in zip((P1, P2, xs, ys), keep))
                return {"r": encpts(q, r[0], r[1], L["qy"]), "n1": q.vec(r[2]), "n2": q.vec(r[3]), "pure": bool(pure)}
            rec.ev("reduce-%d" % k, "reduce", {"p1": L["p1"], "p2": L["p2"], "qx": 1, "qy": L["qy"],
                                               "mode": "positive" if mode == "default" else mode, "vs": vs}, call, enc)
        return go

    for k in range(900 if big else 240):
        L = rand_lattice(r2, 60)
        z = k % 6
        if z == 1:
            L["p1"] = [0, 0]
        elif z == 2:
            L["p2"] = [0, 0]
        elif z == 3 and k % 12 == 3:
            L["p1"] = L["p2"] = [0, 0]
        vs = [[r2.randint(-14, 14), r2.randint(-14, 14)] for _ in range(r2.choice([1, 2, 12]))]
        # boundary points: halves and corners of the cell
        for a, b in ((1, 0), (0, 1), (1, 1), (-1, 0), (0, -1), (3, -1), (2, -3), (-2, 2)):
            x, y = a * L["p1"][0] + b * L["p2"][0], a * L["p1"][1] + b * L["p2"][1]
            if x % 2 == 0 and y % 2 == 0:
                vs.append([x // 2, y // 2])
            vs.append([x, y])
        jobs.append(red(k, L, ("positive", "centered", "default")[k % 3] if k % 50 else "nearest", vs, k % 2, (k // 2) % 3))

    def recip(k, a, b, qy):
        def go():
            d = a[0] * b[1] - a[1] * b[0]
            if a == [0, 0] or b == [0, 0]:
                d = (a[0] ** 2 + a[1] ** 2) or (b[0] ** 2 + b[1] ** 2) or 1
            d = d or 1
            rec.ev("recip-%d" % k, "recip", {"a": a, "b": b, "d": d},
                   lambda: get_reciprocal_vects(np.array(a), np.array(b)[:, None] if k % 2 else list(b)),
                   lambda r, q: {"r1": q.vec(r[0], d), "r2": q.vec(r[1], d)})
        return go
    for k in range(60):
        a = [r2.randint(-6, 6), r2.randint(-6, 6)]
        b = [r2.randint(-6, 6), r2.randint(-6, 6)]
        if k % 10 == 0:
            b = [2 * a[0], 2 * a[1]]
            if k % 20 == 0:
                b = [0, 0]
        if k % 15 == 1:
            a = [0, 0]
        jobs.append(recip(k, a, b, 1))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
