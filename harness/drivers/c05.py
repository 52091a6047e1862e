import copy
import numpy as np
from core import main, share, Q
from geomlib import *
from manybody import *
from drivers.c02 import named
from drivers.c04 import T, make_fn
from exact_diag import ed_symmetry as symm


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 40
    jobs = []
    sysl = [("fermion", n, ns, 2) for n in range(1, 8) for ns in (1, 2, 3) if n * ns <= (7 if big else 6)]
    sysl += [("fermion", 2, 4, 2)] + ([("fermion", 3, 3, 2), ("fermion", 8, 1, 2), ("fermion", 4, 2, 2)] if True else [])
    sysl += [("spin", n, 1, b) for n in range(1, 7) for b in (2, 3, 4) if b ** n <= (256 if big else 81)]
    sysl += [("spin", 2, 1, b) for b in (5, 6, 7)] + [("spin", 3, 1, 5), ("spin", 1, 1, 6)]

    def win(sy, cnt=24):
        D = sy[3] ** (sy[1] * sy[2])
        return {} if D <= 512 else {"cols": sorted(rng.sample(range(D), cnt))}

    def xf(k, sy, cs, form, w={}):
        def go():
            kind, n, ns, b = sy
            M = model(kind, n, ns, b)
            arg = copy.deepcopy(cs)
            if form == 1:
                arg = [np.array(c) for c in cs]
            elif form == 2:
                arg = tuple(tuple(c) for c in cs)
            keep = copy.deepcopy(arg)
            rec.ev("xform-%s-%d-%d-%d-%d" % (kind, n, ns, b, k), "xform",
                   dict(w, S=system(kind, n, ns, b), cycles=cs),
                   lambda: M.get_xform_op(arg, print_results=bool(k % 5 == 0)),
                   lambda r, q: {"m": q.smat(r, cols=w.get("cols")), "pure": all(list(a) == list(c) for a, c in zip(arg, keep))})
        return go
    for sy in sysl:
        n = sy[1]
        reps = (2 if n <= 2 else 8) * (4 if big else 1)
        if sy[0] == "fermion" and n * sy[2] <= 5:
            reps = int(reps * 1.5)
        if sy[2] >= 3:
            reps = max(reps, 5)
        if n * sy[2] > 7 and not big:
            reps = min(reps, 4)
        for k in range(reps):
            cs = rand_cycles(rng, n)
            if k == 0:
                cs = [[i] for i in range(n)]
            if k == 1 or (n == 2 and k % 2):
                cs = [list(range(n))]
            jobs.append(xf(k, sy, cs, k % 3))

    # larger systems, on a sample of the columns
    large = [("fermion", 5, 2, 2), ("fermion", 10, 1, 2), ("fermion", 2, 5, 2), ("fermion", 11, 1, 2), ("fermion", 3, 4, 2),
             ("spin", 10, 1, 2), ("spin", 6, 1, 3)] + ([("fermion", 4, 3, 2), ("fermion", 6, 2, 2), ("spin", 12, 1, 2)] if big else [])
    for sy in large:
        for k in range(100, 112 if big else 103):
            jobs.append(xf(k, sy, rand_cycles(rng, sy[1]) if k > 100 else [list(range(sy[1]))[::-1]], k % 3, win(sy)))

    def sw(sy, a, b_, s_, w={}):
        def go():
            kind, n, ns, b = sy
            M = model(kind, n, ns, b)
            rec.ev("swap-%s-%d-%d-%d-%d-%d-%d" % (kind, n, ns, b, a, b_, s_), "swap",
                   dict(w, S=system(kind, n, ns, b), a=a, b=b_, sp=s_),
                   lambda: M.get_swap_op(a, b_, s_), lambda r, q: {"m": q.smat(r, cols=w.get("cols")), "pure": True})
        return go
    for sy in sysl:
        if sy[1] * sy[2] > 5 or sy[3] ** sy[1] > 64:
            continue
        for a in range(sy[1]):
            for b_ in range(sy[1]):
                if (a == b_ and a > 0) or (not big and rng.random() < .3):
                    continue
                for s_ in range(sy[2]):
                    jobs.append(sw(sy, a, b_, s_))

    for sy in large[:5] + [("fermion", 4, 2, 2), ("fermion", 3, 3, 2)]:
        for k in range(12 if big else 4):
            a, b_ = rng.sample(range(sy[1]), 2)
            if k == 0:
                a, b_ = 0, sy[1] - 1
            jobs.append(sw(sy, a, b_, rng.randrange(sy[2]), win(sy)))

    def flip(sy):
        def go():
            M = model(*sy)
            rec.ev("flip-%d-%d" % (sy[1], sy[3]), "flip", {"S": system(*sy)}, lambda: M.get_swap_up_down_op(),
                   lambda r, q: {"m": q.smat(r), "pure": True})
        return go
    for sy in sysl:
        if sy[0] == "spin":
            jobs.append(flip(sy))

    # geometric maps through the whole pipeline
    geos = [("square", 4, 1, 0, 1, T("trans", w=[2, 0])), ("square", 5, 1, 0, 1, T("trans", w=[-4, 0])),
            ("square", 2, 2, 1, 1, T("rot", 4, c=[1, 1])), ("square", 2, 2, 1, 1, T("refl", u=[1, 1], c=[1, 1])),
            ("square", 2, 3, 1, 1, T("refl", u=[0, 1], c=[1, 2])), ("square", 3, 2, 1, 1, T("inv", c=[2, 1])),
            ("tilted", 2, 1, 0, 0, T("rot", 4)), ("tilted", 1, 2, 0, 0, T("trans", w=[0, 2])),
            ("tilted", 1, 1, 0, 0, T("rot", -4)), ("square", 6, 1, 0, 1, T("trans", w=[2, 0])),
            ("square", 3, 1, 1, 1, T("rot", 2, c=[2, 0])), ("triangle", 2, 2, 0, 0, T("rot", 6)),
            ("triangle", 2, 2, 0, 0, T("trans", w=[1, 1])), ("hex", 1, 1, 1, 1, T("inv", c=[0, 0]))]

    def gm(k, g, kind, ns, b):
        def go():
            gk, n, m, o1, o2, t = g
            fn, qy = KINDS[gk]
            geom = fn(n, m, 0, 0, bool(o1), bool(o2))
            L = named(gk, n, m)
            if o1:
                L["p1"] = [0, 0]
            if o2:
                L["p2"] = [0, 0]
            sites = encpts(Q(), geom.xlocs, geom.ylocs, qy)
            M = model(kind, geom.nsites, ns, b, geom)

            def call():
                cyc, _ = symm.findSiteCycles(make_fn(t, qy), geom)
                return M.get_xform_op(cyc)
            rec.ev("geom-%d-%s" % (k, kind), "geom", {"S": system(kind, geom.nsites, ns, b), "L": L, "t": t, "sites": sites},
                   call, lambda r, q: {"m": q.smat(r), "pure": True})
        return go
    for k, g in enumerate(geos):
        if g[0] == "hex":
            continue
        for kind, ns, b in (("fermion", 1, 2), ("spin", 1, 2)):
            jobs.append(gm(k, g, kind, ns, b))
    for k, g in ((20, geos[2]), (21, geos[8])):
        if big:
            jobs.append(gm(k, g, "fermion", 2, 2))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
