import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from clusterlib import *
from drivers.c17 import state, canon


def shaped(r, n, lim=5):
    sh = r.choice([(), (), (1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2), (1, 1)])
    v = np.array([r.randint(-lim, lim) for _ in range(n * int(np.prod(sh)))]).reshape((n,) + sh)
    return v if r.random() < .4 else v.astype(float)


def flat(q, a, n, scale=1):
    a = np.asarray(a)
    return [q.vec(x, scale) for x in a.reshape(n, -1)]


def connected_subsets(cells):
    cells = [tuple(c) for c in cells]
    full = set(cells)
    layer = {frozenset([c]) for c in cells}
    out = set(layer)
    while layer:
        nxt = set()
        for s in layer:
            for x, y in s:
                for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                    p = (x + a, y + b)
                    if p in full and p not in s:
                        nxt.add(s | {p})
        out |= nxt
        layer = nxt
    return out


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 25
    jobs = []

    def nlce(k, seed):
        def go():
            r = random.Random(seed)
            n = r.randint(1, 8) if k % 8 else r.randint(12, 18)
            no = r.randint(1, min(4, n))
            cuts = sorted(r.sample(range(1, n), no - 1)) if no > 1 else []
            edge = [0] + cuts + [n]
            M = np.zeros((n, n))
            for i in range(n):
                for j in range(i):
                    if r.random() < .6:
                        M[i, j] = r.randint(0, 3)
            v = shaped(r, n)
            sign = k % 4 == 1
            mult = [r.randint(-4 if sign else 0, 4) for _ in range(n)]
            # values in units of 1/u, multiplicities in units of 1/h
            u, h = r.choice([1, 1, 8, 1000]), r.choice([1, 1, 2])
            ints = v.reshape(n, -1).astype(int).tolist()
            v = v / u if u > 1 else v
            mult0 = mult
            mult = [x / h for x in mult] if h > 1 else mult
            nsites = r.randint(1, 5)
            f = r.randrange(5)
            mv = mult if f == 0 else np.array(mult) if f == 1 else np.array(mult).reshape(1, n) if f == 2 else \
                np.array(mult, dtype=float).reshape(n, 1) if f == 3 else sp.csr_matrix(np.array(mult).reshape(1, n))
            ed = edge if r.random() < .5 else np.array(edge)
            sm = sp.csr_matrix(M) if r.random() < .6 else sp.csc_matrix(M)
            keep = (v.copy(), sm.toarray())
            rec.ev("nlce-%d" % k, "nlce", {"v": ints, "mult": mult0, "edge": edge,
                                           "m": [[i, j, int(M[i, j])] for i in range(n) for j in range(n) if M[i, j]]},
                   lambda: ed_nlce.get_nlce_exp_val(v, sm, mv, ed, nsites),
                   lambda res, q: {"x": q.vec(res[0], nsites * u * h), "o": flat(q, res[1], len(edge) - 1, nsites * u * h), "w": flat(q, res[2], n, u),
                                   "pure": bool(np.array_equal(v, keep[0]) and np.array_equal(sm.toarray(), keep[1]))})
        return go

    def inverse(k, n, seed):
        def go():
            r = random.Random(seed)
            holder = {}
            cs, mult, M, edge = ed_nlce.get_all_clusters_with_subclusters(n)
            cells = [plain(c) for c in cs]
            keys = [canon(c) for c in cells]
            g = {key: r.randint(-4, 4) for key in keys}
            if k % 3 == 0:      # extensive quantities: only sites and bonds carry weight
                g = {key: (r.randint(1, 5) if len(key) <= 2 else 0) for key in keys}
            P = np.array([float(sum(g.get(canon(s), 0) for s in connected_subsets(c))) for c in cells])
            rec.ev("inverse-%d" % k, "inverse", {"g": [g[x] for x in keys]},
                   lambda: ed_nlce.get_nlce_exp_val(P, M, mult, edge, 1),
                   lambda res, q: {"x": q.vec(res[0]), "w": flat(q, res[2], len(cells)), "cs": cells})
        return go

    def finite(k, seed):
        def go():
            r = random.Random(seed)
            par = geom(random_animal(r, r.randint(1, 6), compact=r.choice([0, 1])), r, True)
            val = {}

            def f(cells):
                key = canon(cells)
                if key not in val:
                    val[key] = r.randint(-9, 9)
                return val[key]

            def call():
                cs, M, edge = ed_nlce.get_reduced_subclusters(par)
                P = np.array([float(f(plain(c))) for c in cs])
                m = M[-1, :].toarray().ravel()
                m[-1] = 1
                return ed_nlce.get_nlce_exp_val(P, M, m, edge, 1)[0]
            total = f(plain(par))
            rec.ev("finite-%d" % k, "finite", {"total": total}, call, lambda res, q: {"x": q.vec(res)})
        return go

    def euler(k, seed):
        def go():
            r = random.Random(seed)
            a, b = r.choice([(1, 1), (1, 1), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (-1, 2), (-2, 1), (-3, 1), (-1, 3), (0, 1), (-3, 2)])
            n = r.randint(1, {0: 11, 1: 11, 2: 11, 3: 8, 4: 6}[abs(a + b)] - (4 if a < 0 and min(a, -b) < -1 else 0))
            v = shaped(r, n, 4)
            y = a / b if b > 1 or r.random() < .5 else a
            keep = v.copy()
            rec.ev("euler-%d" % k, "euler", {"v": v.reshape(n, -1).astype(int).tolist(), "a": a, "b": b},
                   lambda: ed_nlce.euler_resum(v, y),
                   lambda res, q: {"x": q.vec(res[0], (a + b) ** n),
                                   "t": [q.vec(t, (a + b) ** (i + 1)) for i, t in enumerate(np.asarray(res[1]).reshape(n, -1))],
                                   "pure": bool(np.array_equal(v, keep))})
        return go
    for k in range(1500 if big else 300):
        jobs.append(nlce(k, rng.randrange(10 ** 9)))
    for k in range(40 if big else 12):
        jobs.append(inverse(k, 1 + k % (5 if big else 4), rng.randrange(10 ** 9)))
    for k in range(200 if big else 50):
        jobs.append(finite(k, rng.randrange(10 ** 9)))
    for k in range(500 if big else 120):
        jobs.append(euler(k, rng.randrange(10 ** 9)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
