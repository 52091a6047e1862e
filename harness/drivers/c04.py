import numpy as np
from core import main, share
from geomlib import *
from drivers.c02 import named
from exact_diag.ed_geometry import Geometry
from exact_diag import ed_symmetry as symm

Z = [0, 0]


def T(k, n=1, u=Z, w=Z, c=Z, cd=1):
    return {"k": k, "n": n, "u": list(u), "w": list(w), "c": list(c), "cd": cd}


def make_fn(t, qy, form=0):
    c = dec([t["c"][0] / t["cd"], t["c"][1] / t["cd"]], qy)
    if t["k"] == "rot":
        return symm.getRotFn(t["n"]) if t["c"] == Z and form % 2 else symm.getRotFn(t["n"], cx=c[0], cy=c[1])
    if t["k"] == "refl":
        u = np.array(dec(t["u"], qy), dtype=float)
        u = [u, u[:, None], list(u), u[None, :]][form % 4]
        return symm.getReflFn(u) if t["c"] == Z and form % 2 else symm.getReflFn(u, cx=c[0], cy=c[1])
    if t["k"] == "inv":
        return symm.getInversionFn() if t["c"] == Z and form % 2 else symm.getInversionFn(c[0], c[1])
    w = np.array(dec([t["w"][0] / t["cd"], t["w"][1] / t["cd"]], qy), dtype=float)
    return symm.getTranslFn([w, w[:, None], list(w), w[None, :]][form % 4])


def den(t, qy):
    if t["k"] == "trans":
        return t["cd"]
    if t["k"] == "refl":
        return (t["u"][0] ** 2 + qy * t["u"][1] ** 2) * t["cd"]
    return {3: 2, 6: 2, -3: 2, -6: 2}.get(t["n"], 1) * t["cd"] if t["k"] == "rot" else t["cd"]


def rand_t(rng, qy, L=None, steep=False):
    k = rng.choice(["rot", "rot", "refl", "inv", "trans", "trans"])
    cd = rng.choice([1, 1, 2, 3])
    c = [rng.randint(-6, 6), rng.randint(-6, 6)] if rng.random() < .8 else [0, 0]
    if k == "rot":
        n = rng.choice([1, 2, 4, 4, -4] if qy == 1 else [1, 2, 3, 6, 6, -3, -6])
        return T("rot", n=n, c=c, cd=cd)
    if k == "refl":
        u = rng.choice([[0, 1], [1, 0], [1, 1], [-1, 1], [2, 1], [1, -1], [-3, 0], [0, -2], [1, -3], [3, 1]] + ([[40, 1], [-1, 40], [100, -1], [1, 100]] if steep else []))
        return T("refl", u=u, c=c, cd=cd)
    if k == "inv":
        return T("inv", c=c, cd=cd)
    if L is not None and rng.random() < .8:
        a, b = rng.randint(-3, 3), rng.randint(-3, 3)
        return T("trans", w=[a * L["l1"][0] + b * L["l2"][0], a * L["l1"][1] + b * L["l2"][1]])
    return T("trans", w=[rng.randint(-5, 5), rng.randint(-5, 5)], cd=cd)


def nudge(rng, t, cd):
    """the same map with its centre or shift moved by 1/cd: close to a symmetry, but not one"""
    d = rng.choice([[1, 0], [0, 1], [1, 1], [-1, 1], [0, -1], [0, 0]])
    if t["k"] == "trans":
        return dict(t, cd=cd * t["cd"], w=[t["w"][0] * cd + d[0], t["w"][1] * cd + d[1]])
    return dict(t, cd=cd * t["cd"], c=[t["c"][0] * cd + d[0], t["c"][1] * cd + d[1]])


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []

    def xform(k, t, qy, vs):
        def go():
            xs = np.array([dec(v, qy)[0] for v in vs])
            ys = np.array([dec(v, qy)[1] for v in vs])
            kx, ky = xs.copy(), ys.copy()
            d = max(1, den(t, qy))

            def enc(r, q):
                r = np.asarray(r)
                if r.ndim != 2 or r.shape[0] != 2:
                    raise ValueError("shape %s" % (r.shape,))
                return {"d": d, "v": [[q.i(x, 2 * d), q.i(y, ysc(qy) * d)] for x, y in zip(r[0], r[1])],
                        "pure": bool(np.array_equal(xs, kx) and np.array_equal(ys, ky))}
            rec.ev("xform-%d" % k, "xform", {"qy": qy, "t": t, "v": vs}, lambda: make_fn(t, qy, k)(xs, ys), enc)
        return go

    for k in range(800 if big else 200):
        qy = rng.choice([1, 3])
        t = rand_t(rng, qy, steep=True)
        if k % 60 == 7:
            t = T("refl", u=Z)
        jobs.append(xform(k, t, qy, [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(rng.choice([1, 2, 7]))]))

    def geo(id, g_fn, L, t, poly, k):
        def go():
            g = g_fn()
            qy = L["qy"]
            from core import Q
            q0 = Q()
            sites = encpts(q0, g.xlocs, g.ylocs, qy) if poly == 0 else []
            if not q0.exact:
                return
            inp = {"L": L, "t": t, "poly": poly, "sites": sites}
            n = g.nsites
            labels = list(range(n)) if k % 3 else [int(x) for x in np.random.RandomState(k).permutation(n) + 10 * (k % 2)]
            arg = np.array(labels) if k % 2 else list(labels)
            keep = (g.xlocs.copy(), g.ylocs.copy(), np.array(arg))

            def pure():
                return bool(np.array_equal(g.xlocs, keep[0]) and np.array_equal(g.ylocs, keep[1]) and
                            np.array_equal(np.array(arg), keep[2]))
            rec.ev(id + "-s", "tsites", dict(inp, labels=labels),
                   lambda: symm.getTransformedSites(make_fn(t, qy, k), arg, g),
                   lambda r, q: {"a": q.vec(r[0]), "b": q.vec(r[1]), "pure": pure()})

            def encc(r, q):
                return {"c": [[int(q.i(x)) for x in c] for c in r[0]], "n": q.i(r[1]), "pure": pure()}
            rec.ev(id + "-c", "cycles", inp, lambda: symm.findSiteCycles(make_fn(t, qy, k), g), encc)
        return go

    # named lattices with their natural symmetries
    sizes = {"square": [(1, 1), (2, 1), (1, 5), (3, 3), (4, 2), (2, 4), (4, 4), (5, 1), (6, 1), (3, 2), (2, 2)],
             "tilted": [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (3, 0), (1, 0), (3, 2)],
             "triangle": [(1, 1), (2, 2), (3, 3), (4, 4), (3, 2), (2, 4), (6, 1)],
             "hex": [(1, 1), (1, 3), (2, 2), (1, 2), (3, 1)]}
    cnt = 0
    for kind in KINDS:
        fn, qy = KINDS[kind]
        for n, m in sizes[kind]:
            for o1 in (0, 1):
                for o2 in (0, 1):
                    if kind != "tilted" and ((n == 1 and not o1) or (m == 1 and not o2)):
                        continue
                    L = named(kind, n, m)
                    ns = {"square": n * m, "triangle": n * m, "tilted": n * n + m * m, "hex": 4 * n * m}[kind]
                    if o1:
                        L["p1"] = Z
                    if o2:
                        L["p2"] = Z
                    ctr = {"square": ([n - 1, m - 1], 1), "tilted": ([0, 0], 1),
                           "triangle": ([2 * (n - 1) + (m - 1), m - 1], 2), "hex": ([0, 0], 1)}[kind]
                    cands = [T("trans", w=L["l1"]), T("trans", w=L["l2"]), T("trans", w=[-L["l2"][0], -L["l2"][1]]),
                             T("inv", c=ctr[0], cd=ctr[1]), T("inv"),
                             T("refl", u=[0, 1], c=ctr[0], cd=ctr[1]), T("refl", u=[1, 0], c=ctr[0], cd=ctr[1]),
                             T("refl", u=[1, 1], c=ctr[0], cd=ctr[1]), T("rot", 2, c=ctr[0], cd=ctr[1])]
                    rots = (4, -4) if qy == 1 else (3, 6, -3, -6)
                    for r in rots:
                        cands.append(T("rot", r, c=ctr[0], cd=ctr[1]))
                        cands.append(T("rot", r))
                    for t in cands:
                        cnt += 1
                        if not big and ns > 9 and cnt % 3:
                            continue
                        jobs.append(geo("%s-%d-%d-%d%d-%d" % (kind, n, m, o1, o2, cnt),
                                        (lambda fn=fn, n=n, m=m, o1=o1, o2=o2: fn(n, m, 0, 0, bool(o1), bool(o2))),
                                        L, t, 0, cnt))
                        if cnt % 6 == 0 and t["k"] in ("trans", "inv") and ns < 13:
                            jobs.append(geo("%s-%d-%d-%d%d-%d-near" % (kind, n, m, o1, o2, cnt),
                                            (lambda fn=fn, n=n, m=m, o1=o1, o2=o2: fn(n, m, 0, 0, bool(o1), bool(o2))),
                                            L, nudge(rng, t, 64), 0, cnt))
    # random lattices, relabelled sites, random maps
    for k in range(700 if big else 160):
        L = rand_lattice(rng, 12)
        o = rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)])
        a = lat_args(L)
        perm = [rng.random() for _ in range(200)] if rng.random() < .6 else None
        L2 = dict(L, p1=Z if o[0] else L["p1"], p2=Z if o[1] else L["p2"])
        t = rand_t(rng, L["qy"], L)

        def mk(a=a, o=o, perm=perm):
            g = Geometry.create_lattice_geom(bc1_open=bool(o[0]), bc2_open=bool(o[1]), **a)
            if perm:
                g.permute_sites(np.argsort(perm[:g.nsites]))
            return g
        jobs.append(geo("rand-%d" % k, mk, L2, t, 0, k))
    # finite point sets without a lattice, closed under a map (or nearly)
    for k in range(240 if big else 80):
        qy = rng.choice([1, 3])
        t = rand_t(rng, qy)
        if t["k"] == "trans":
            t = T("rot", 2)
        t = dict(t, cd=1)
        pts = []
        for _ in range(rng.randint(1, 3)):
            v = [rng.randint(-5, 5), rng.randint(-5, 5)]
            for _ in range(12):
                if v in pts:
                    break
                pts.append(v)
                fn = make_fn(t, qy)
                w = fn(np.array([dec(v, qy)[0]]), np.array([dec(v, qy)[1]]))
                a, b = w[0, 0] * 2, w[1, 0] * ysc(qy)
                if abs(a - round(a)) > 1e-6 or abs(b - round(b)) > 1e-6:
                    break
                v = [int(round(a)), int(round(b))]
        if rng.random() < .25 and len(pts) > 1:
            pts.pop(rng.randrange(len(pts)))
        rng.shuffle(pts)

        def mk(pts=pts, qy=qy):
            n = len(pts)
            return Geometry.createNonPeriodicGeometry([dec(p, qy)[0] for p in pts], [dec(p, qy)[1] for p in pts],
                                                      adjacency_mat=np.zeros((n, n)))
        jobs.append(geo("pts-%d" % k, mk, blank(qy=qy), t, 0, k))
        if k % 2 and t["k"] in ("inv", "rot"):
            jobs.append(geo("pts-%d-near" % k, mk, blank(qy=qy), nudge(rng, t, 2 ** 17), 0, k))
    # lattices with a basis made of the orbits of a rotation (one, two, three, four and six sites)
    orbits = {3: ([12, 0], [6, 6], [[[0, 0]], [[6, 0], [3, 3], [9, 3]], [[6, 2], [12, 4]]], (6, -6, 3, -3, 2)),
              1: ([12, 0], [0, 12], [[[0, 0]], [[6, 6]], [[6, 0], [0, 6]], [[2, 3], [-3, 2], [-2, -3], [3, -2]]], (4, -4, 2))}
    cnt = 0
    for qy, (l1, l2, orb, rots) in orbits.items():
        for pick in range(1, 2 ** len(orb)):
            basis = [v for j, o in enumerate(orb) if pick >> j & 1 for v in o]
            for n in ((1, 2) if big else (1,)):
                for rt in rots:
                    cnt += 1
                    L = blank(l1=l1, l2=l2, p1=[n * x for x in l1], p2=[n * x for x in l2], basis=basis, qy=qy)
                    perm = [rng.random() for _ in range(60)]

                    def mk(a=lat_args(L), perm=perm, cnt=cnt):
                        g = Geometry.create_lattice_geom(bc1_open=False, bc2_open=False, **a)
                        if cnt % 2:
                            g.permute_sites(np.argsort(perm[:g.nsites]))
                        return g
                    jobs.append(geo("orbits-%d-%d-%d-%d" % (qy, pick, n, rt), mk, L, T("rot", rt), 0, cnt))
    # regular polygons
    for n in range(3, 13 if big else 10):
        for j, t in enumerate([T("rot", n), T("refl", u=[0, 1]), T("inv"), T("rot", 1)]):
            jobs.append(geo("poly-%d-%d" % (n, j), (lambda n=n: Geometry.createRegularPolygonGeometry(n)), blank(), t, n, n + j))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
