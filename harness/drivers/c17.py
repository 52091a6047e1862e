import random
import numpy as np
from core import main, share
from clusterlib import *


def state(cs):
    return [plain(c) for c in cs]


def parent(r, maxn):
    k = r.randrange(6)
    if k == 0:
        a, b = r.choice([(2, 2), (3, 2), (2, 3), (4, 1), (1, 3), (2, 1), (1, 1), (3, 1)])
        return Geometry.createSquareGeometry(a, b)
    if k == 1:      # two separate pieces
        a = random_animal(r, r.randint(1, 3))
        b = [(x + 20, y) for x, y in random_animal(r, r.randint(1, 3))]
        return geom(a + b, r)
    return geom(random_animal(r, r.randint(1, maxn), compact=r.choice([0, .5, 1])), r, r.random() < .3)


def canon(s):
    out = []
    for a, b, c, d in ((1, 0, 0, 1), (-1, 0, 0, 1), (1, 0, 0, -1), (-1, 0, 0, -1), (0, 1, 1, 0), (0, -1, 1, 0), (0, 1, -1, 0), (0, -1, -1, 0)):
        t = [(a * x + b * y, c * x + d * y) for x, y in s]
        mx, my = min(x for x, _ in t), min(y for _, y in t)
        out.append(tuple(sorted((x - mx, y - my) for x, y in t)))
    return min(out)


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 8
    jobs = []

    def one(k, seed):
        def go():
            r = random.Random(seed)
            op = r.choice(["next", "subs", "reduced", "reduce", "map"])
            g = parent(r, 8 if big or k % 10 == 0 else 6)
            if op in ("subs", "reduced") and k % 20 == 0:
                g = Geometry.createSquareGeometry(3, 3) if big or op == "subs" else Geometry.createSquareGeometry(4, 2)
            before = plain(g)
            pure = lambda: plain(g) == before
            sym = r.random() < .6
            if op == "next":
                none = r.random() < .1
                lst, _ = ed_nlce.get_subclusters_next_order(g)
                for _ in range(r.randint(0, max(0, min(4, g.nsites - 2)))):
                    nx, _ = ed_nlce.get_subclusters_next_order(g, lst)
                    if not nx:
                        break
                    lst = r.sample(nx, r.randint(1, len(nx))) if r.random() < .5 else nx
                cs = [] if none else state(lst)
                rec.ev("next-%d" % k, "next", {"p": before, "cs": cs, "none": none},
                       lambda: ed_nlce.get_subclusters_next_order(g) if none else ed_nlce.get_subclusters_next_order(g, lst),
                       lambda res, q: {"cs": [cl(q, x) for x in res[0]], "in": [[int(y) for y in x] for x in res[1]],
                                       "pure": pure() and (none or state(lst) == cs)})
            elif op == "subs":
                def enc(res, q):
                    return {"cs": [cl(q, x) for o in res[0] for x in o], "ord": [n + 1 for n, o in enumerate(res[0]) for _ in o],
                            "ind": [[int(y) for y in x] for x in res[1]], "m": q.smat(res[2]), "pure": pure()}
                rec.ev("subs-%d" % k, "subs", {"p": before}, lambda: ed_nlce.get_all_subclusters(g), enc)
            elif op == "reduced":
                if r.random() < .5:
                    g.permute_sites(g.get_sorting_permutation())
                    before = plain(g)
                rec.ev("reduced-%d" % k, "reduced", {"p": before, "sym": True}, lambda: ed_nlce.get_reduced_subclusters(g),
                       lambda res, q: {"cs": [cl(q, x) for x in res[0]], "m": q.smat(res[1]), "edge": [int(x) for x in res[2]],
                                       "pure": plain(g) == before})
            elif op == "reduce":
                if r.random() < .5:
                    orders, _, _ = ed_nlce.get_all_subclusters(g)
                    orders = [r.sample(o, r.randint(1, len(o))) for o in orders]
                else:
                    orders = [[geom(random_animal(r, n, compact=r.choice([0, 1])), r, True) for _ in range(r.randint(24, 40) if k % 8 == 0 and n > 3 else r.randint(1, 6))]
                              for n in range(1, r.randint(6, 8) if k % 8 == 0 else r.randint(2, 6))]
                inp = [state(o) for o in orders]
                rec.ev("reduce-%d" % k, "reduce", {"orders": inp, "sym": sym},
                       lambda: ed_nlce.reduce_clusters_by_geometry(orders, use_symmetry=sym) if not sym or k % 2 else ed_nlce.reduce_clusters_by_geometry(orders),
                       lambda res, q: {"cs": [[cl(q, x) for x in o] for o in res[0]], "mult": [q.vec(x) for x in res[1]], "m": q.smat(res[2]),
                                       "pure": [state(o) for o in orders] == inp})
            else:
                n = r.randint(1, 4)
                if r.random() < .3:     # a basis that goes further, with some of the clusters of each order
                    n = r.randint(5, 8)
                    lists = [[]]
                    for m in range(1, n + 1):
                        seen = {}
                        for _ in range(r.randint(2, 6)):
                            c = random_animal(r, m)
                            seen.setdefault(canon(c) if sym else tuple(sorted((x - min(c)[0], y - min(b for _, b in c)) for x, y in c)), c)
                        lists.append([geom(c, r, True) for c in seen.values()])
                    bigl, be = sum(lists, []), [int(x) for x in np.cumsum([len(x) for x in lists])]
                else:
                    bigl, _, be = ed_nlce.get_all_clusters(n, use_symmetry=sym)
                orders = []
                for m in range(1, (r.randint(1, n) if n < 5 else r.randint(4, n)) + 1):
                    orders.append([geom(random_animal(r, m), r, True) for _ in range(r.randint(0, 4))])
                    pool = [x for x in bigl if x.nsites == m]
                    if n > 4 and pool:
                        orders[-1] += [geom([tuple(c) for c in plain(x)], r, True) for x in r.sample(pool, min(2, len(pool)))]
                small = [x for o in orders for x in o]
                se = [0]
                for o in orders:
                    se.append(se[-1] + len(o))
                rec.ev("map-%d" % k, "map", {"big": state(bigl), "small": state(small), "sym": sym},
                       lambda: ed_nlce.map_between_cluster_bases(bigl, be, small, se, use_symmetry=sym),
                       lambda res, q: {"m": q.smat(res)})
        return go

    def whole(n, sym):
        def go():
            rec.ev("with-%d-%s" % (n, sym), "with", {"n": n, "sym": sym},
                   lambda: ed_nlce.get_all_clusters_with_subclusters(n, use_symmetry=sym) if not sym or n % 2 else
                   ed_nlce.get_all_clusters_with_subclusters(n, print_progress=True),
                   lambda res, q: {"cs": [cl(q, g) for g in res[0]], "mult": q.vec(res[1]), "m": q.smat(res[2]), "edge": [int(x) for x in res[3]]},
                   timeout=500)
        return go
    for n in range(1, 7 if big else 6):
        jobs.append(whole(n, True))
        if n <= (5 if big else 4):
            jobs.append(whole(n, False))
    jobs.reverse()
    for k in range(800 if big else 200):
        jobs.append(one(k, rng.randrange(10 ** 9)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
