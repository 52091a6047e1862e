import random
import numpy as np
from core import main, share
from clusterlib import *

BASES = [((1, 0), (0, 1)), ((0, 1), (1, 0)), ((-1, 0), (0, 1)), ((0, -1), (-1, 0))]
LINES = [((1, 0), (1, 0)), ((0, 1), (0, 1)), ((1, 0), (-1, 0))]


def moves(lv):
    return sorted({tuple(s * x for x in v) for v in lv for s in (1, -1)})


def state(cs):
    return [plain(c) for c in cs]


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 12
    jobs = []

    def grow(k, seed):
        def go():
            r = random.Random(seed)
            line = r.random() < .15
            lv = r.choice(LINES if line else BASES)
            sym = r.random() < .6 and not line
            n = r.randint(1, 6 if big else 5) if k % 9 else r.randint(4, 9)
            long = k % 15 == 7
            none = r.random() < .05
            mv = moves(lv)
            srt = r.random() < .5
            cells = []
            for _ in range(r.randint(30, 45) if long else r.randint(1, 5)):
                cells.append(random_animal(r, n, mv, r.choice([0, 0, .5, 1])))
            cs = None if none else [geom(c, None if srt else r, srt) for c in cells]
            kw = {"use_symmetry": sym} if sym or r.random() < .5 else {}
            if lv != BASES[0] or r.random() < .5:
                kw.update(lv1=np.array(lv[0]), lv2=np.array(lv[1]))
            before = [] if none else state(cs)

            def call():
                return ed_nlce.get_clusters_next_order(cs, **kw) if not none else ed_nlce.get_clusters_next_order(**kw)
            rec.ev("grow-%d" % k, "grow", {"cs": before, "none": none, "sym": sym, "mv": mv}, call,
                   lambda res, q: {"cs": [cl(q, g) for g in res[0]], "mult": q.vec(res[1]), "pure": none or state(cs) == before})
        return go

    def partners(k, seed):
        def go():
            r = random.Random(seed)
            n = r.randint(1, 8)
            g = geom(random_animal(r, n, compact=r.choice([0, .5, 1])), r, True)
            if k % 7 == 0:      # very symmetric ones
                m = r.choice([(2, 2), (3, 3), (3, 1), (2, 3), (1, 4)])
                ox, oy = r.randint(-3, 3), r.randint(-3, 3)
                g = geom([(ox + a, oy + b) for a in range(m[0]) for b in range(m[1])], r, True)
            before = state([g])
            rec.ev("partners-%d" % k, "partners", {"cs": before, "mv": moves(BASES[0])}, lambda: ed_nlce.get_clusters_rel_by_symmetry(g),
                   lambda res, q: {"cs": [cl(q, x) for x in res], "pure": state([g]) == before})
        return go

    def every(id, n, sym, lv, kw):
        def go():
            rec.ev("all-%s" % id, "all", {"n": n, "sym": sym, "mv": moves(lv)}, lambda: ed_nlce.get_all_clusters(n, **kw),
                   lambda res, q: {"cs": [cl(q, g) for g in res[0]], "mult": q.vec(res[1]), "edge": [int(x) for x in res[2]]}, timeout=400)
        return go
    for k in range(400 if big else 90):
        jobs.append(grow(k, rng.randrange(10 ** 9)))
    for k in range(400 if big else 110):
        jobs.append(partners(k, rng.randrange(10 ** 9)))
    for n in range(1, 8):
        jobs.append(every("sym-%d" % n, n, True, BASES[0], {}))
        for j, lv in enumerate(BASES):
            if n <= 4 or big and n <= 6:
                jobs.append(every("sym%d-%d" % (j, n), n, True, lv, dict(lv1=np.array(lv[0]), lv2=np.array(lv[1]), use_symmetry=True)))
        if n <= 6:
            jobs.append(every("nosym-%d" % n, n, False, BASES[0], dict(use_symmetry=False)))
        for j, lv in enumerate(LINES):
            jobs.append(every("line%d-%d" % (j, n), n, False, lv, dict(lv1=np.array(lv[0]), lv2=np.array(lv[1]), use_symmetry=False)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
