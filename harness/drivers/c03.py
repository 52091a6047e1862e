import copy
import json
import math
import os
import numpy as np
from core import main, share
from geomlib import *
from drivers.c02 import snapshot, grid
from exact_diag.ed_geometry import Geometry, Lattice

PERMS4 = [[1, 2, 3, 0], [1, 0, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]]


class Hist:
    def __init__(self, rec, tag, qy, T):
        self.rec, self.tag, self.qy, self.T = rec, tag, qy, T
        self.objs = {}
        self.lats = {}
        self.k = 0
        self.latids = []

    def latid(self, lat):
        if lat is None:
            return 0
        key = (lat.lattice_vect1.tolist(), lat.lattice_vect2.tolist(), lat.periodicity_vect1.tolist(),
               lat.periodicity_vect2.tolist(), float(lat.phase1), float(lat.phase2))
        if key not in self.latids:
            self.latids.append(key)
        return self.latids.index(key) + 1

    def snap(self, q):
        out = {}
        for n in "ABC":
            if n in self.objs:
                s = snapshot(q, self.objs[n], self.qy, self.T)
                s["lat"] = self.latid(self.objs[n].lattice)
            else:
                s = {"sites": [], "adj": [], "dx": [], "dy": [], "ph": [], "lat": 0}
            out[n] = s
        return out

    def id(self, op):
        self.k += 1
        return "%s#%d-%s" % (self.tag, self.k, op)

    def new(self, n, build):
        def call():
            self.objs[n] = build()
        self.rec.ev(self.id("new"), "new", {"obj": n}, call, lambda r, q: {"snap": self.snap(q)})

    def permute(self, n, perm, valid, form=0):
        def call():
            p = list(perm)
            if form == 1:
                p = np.array(p)
            try:
                self.objs[n].permute_sites(p)
                return False
            except ValueError:
                return True
        self.rec.ev(self.id("permute"), "permute", {"obj": n, "perm": list(perm) if valid else [], "valid": valid}, call,
                    lambda r, q: {"rejected": r, "snap": self.snap(q)})

    def copy(self, a, b):
        def call():
            self.objs[b] = copy.deepcopy(self.objs[a])
        self.rec.ev(self.id("copy"), "copy", {"src": a, "dst": b}, call, lambda r, q: {"snap": self.snap(q)})

    def sort(self, n, mode, apply=True):
        def call():
            try:
                return self.objs[n].get_sorting_permutation(mode) if mode != "default" else self.objs[n].get_sorting_permutation()
            except ValueError:
                return None
        ok, p = self.rec.ev(self.id("sort"), "sort", {"obj": n, "mode": "top_alternating" if mode == "default" else mode}, call,
                            lambda r, q: {"rejected": r is None, "perm": q.vec(r) if r is not None else [], "snap": self.snap(q)})
        if apply and ok and p is not None and sorted(p) == list(range(self.objs[n].nsites)):
            self.permute(n, [int(x) for x in p], True)

    def compare(self, a, b):
        x, y = self.objs[a], self.objs[b]
        self.rec.ev(self.id("compare"), "compare", {"a": a, "b": b, "irr": self.qy != 1},
                    lambda: (x == y, x != y, y == x, x.isequal_adjacency(y)),
                    lambda r, q: {"eq": bool(r[0]), "ne": bool(r[1]), "eqr": bool(r[2]), "adj": bool(r[3]), "snap": self.snap(q)})

    def com(self, n):
        g = self.objs[n]
        self.rec.ev(self.id("com"), "com", {"obj": n}, lambda: g.get_center_of_mass(),
                    lambda r, q: {"cx": q.i(r[0], 2 * g.nsites), "cy": q.i(r[1], ysc(self.qy) * g.nsites)})


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []
    hists = json.load(open(os.path.join(os.environ["VERIF_GEN"], "c03.json")))

    # replay of the behaviours TLC enumerated
    def replay(chunk, base):
        def go():
            with rec.history():
                for k, h in chunk:
                    H = Hist(rec, "gen-%d" % k, 1, 1)
                    build = (lambda: Geometry.createSquareGeometry(2, 2)) if k % 2 == 0 else \
                        (lambda: Geometry.createNonPeriodicGeometry([0, 0, 1, 1], [0, 1, 0, 1]))
                    H.new("A", build)
                    H.new("B", build)
                    for st in h:
                        o = st["obj"]
                        if st["act"] == "permute":
                            H.permute(o, PERMS4[st["arg"] - 1], True, k % 2)
                        elif st["act"] == "copy":
                            H.copy(o, "B" if o == "A" else "A")
                        elif st["act"] == "badpermute":
                            H.permute(o, [[0, 1, 2], [0, 0, 1, 2], [1, 2, 3, 4], [0, 1, 2, 3, 4], []][k % 5], False)
                        else:
                            H.sort(o, st["act"][5:], True)
                    H.compare("A", "B")
                    H.com("A")
        return go
    hs = list(enumerate(hists))
    if big and len(hs) > 3000:
        hs = rng.sample(hs, 3000)
    for c in range(0, len(hs), 60):
        jobs.append(replay(hs[c:c + 60], c))

    # random longer histories on larger and stranger geometries
    def rnd(k, seed):
        import random
        r = random.Random(seed)

        def go():
            kind = r.choice(["square", "square", "tilted", "free", "freeph", "triangle", "hex", "tree"])
            qy = 1
            T = 1
            if kind == "free":
                n = r.choice([r.randint(1, 9), r.randint(1, 9), r.randint(10, 18)])
                pts = r.sample([(x, y) for x in range(-2, 4) for y in range(-2, 4)], n)
                build = lambda: Geometry.createNonPeriodicGeometry([p[0] for p in pts], [p[1] for p in pts])
                other = build
            elif kind == "tree":    # chains with branches: sites that differ only in how far the ends are
                n = r.randint(5, 11)
                A = np.zeros((n, n))
                for a in range(1, n):
                    b = a - 1 if r.random() < .8 else r.randrange(a)
                    A[a, b] = A[b, a] = 1
                lab = r.sample(range(n), n)
                A = A[np.ix_(lab, lab)]
                build = lambda: Geometry.createNonPeriodicGeometry(np.arange(n) * 1., np.zeros(n), A)
                other = lambda: Geometry.createNonPeriodicGeometry(np.arange(n) * 1., np.zeros(n), A[::-1, ::-1].copy())
            elif kind == "freeph":
                n = r.randint(2, 6)
                T = 8
                pts = r.sample([(x, y) for x in range(0, 4) for y in range(0, 4)], n)
                ph = np.zeros((n, n))
                for a in range(n):
                    for b in range(a):
                        ph[a, b] = r.randint(0, 7)
                        ph[b, a] = -ph[a, b]
                P = np.exp(2j * np.pi * ph / 8)
                A = np.zeros((n, n))
                for a in range(n):
                    for b in range(a):
                        A[a, b] = A[b, a] = r.randint(0, 1)
                build = lambda: Geometry.createNonPeriodicGeometry([p[0] for p in pts], [p[1] for p in pts], A, P)
                other = lambda: Geometry.createNonPeriodicGeometry([p[0] for p in pts], [p[1] for p in pts], A)
            else:
                if kind == "tilted":
                    n, m = r.choice([(1, 1), (2, 1), (2, 2), (1, 2)])
                elif kind == "hex":
                    n, m = 1, r.choice([1, 2])
                else:
                    n, m = r.randint(1, 4), r.choice([1, 2, 3, 3, 4])
                o1 = (n == 1 and kind != "tilted") or r.random() < .5
                o2 = (m == 1 and kind != "tilted") or r.random() < .5
                from drivers.c02 import named
                L = dict(named(kind, n, m), fd=4)
                if o1:
                    L["p1"] = [0, 0]
                if o2:
                    L["p2"] = [0, 0]
                T = grid(L)
                qy = KINDS[kind][1]
                f = r.choice([0, 0, 1, 2])
                fn = KINDS[kind][0]
                build = lambda: fn(n, m, 2 * np.pi * f / 4, 0, o1, o2)
                f2 = r.choice([0, 1, 2])
                other = lambda: fn(n, m, 2 * np.pi * f2 / 4, 0, o1, o2)
                if r.random() < .3:
                    g0 = build()
                    other = lambda: Geometry.createNonPeriodicGeometry(g0.xlocs, g0.ylocs)
            with rec.history():
                H = Hist(rec, "rnd-%d" % k, qy, T)
                H.new("A", build)
                H.new("B", other)
                H.copy("A", "C")
                if "A" not in H.objs or "B" not in H.objs:
                    return
                for _ in range(14):
                    o = r.choice("ABC")
                    n = H.objs[o].nsites
                    w = r.random()
                    if w < .35:
                        p = list(range(n))
                        r.shuffle(p)
                        H.permute(o, p, True, r.randint(0, 1))
                    elif w < .45:
                        bad = r.choice([list(range(1, n + 1)), list(range(n + 1)), [0] * n if n > 1 else [1], list(range(n - 1))])
                        H.permute(o, bad, False)
                    elif w < .65:
                        modes = ["top_left", "bottom_right", "adjacency", "nonsense"]
                        if qy == 1:
                            modes += ["top_alternating", "default", "top_alternating"]
                        H.sort(o, r.choice(modes), r.random() < .7)
                    elif w < .75:
                        H.copy(o, r.choice([x for x in "ABC" if x != o]))
                    elif w < .95:
                        H.compare(o, r.choice("ABC"))
                    else:
                        H.com(o)
                if kind in ("tree", "free", "freeph"):
                    H.sort("A", "adjacency", False)
                for a in "ABC":
                    for b in "ABC":
                        H.compare(a, b)
        return go
    for k in range(200 if big else 60):
        jobs.append(rnd(k, rng.random()))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
