import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from geos import small_geoms, desc
from drivers.c07 import rand_rows

SC = 4


def rv(rng, SC):
    """an integer in units of 1/SC; fine units mix couplings of order one and of order a thousandth"""
    return rng.randint(-6, 6) if SC < 1000 or rng.random() < .6 else rng.choice([-1, 1]) * rng.randint(200, 1000)


def coup(rng, n, zero=.3, SC=SC):
    f = rng.choice(["scalar", "scalar", "full", "ring"])
    if rng.random() < zero:
        return {"form": "scalar", "v": 0}, (0.0 if rng.random() < .5 else 0)
    if f == "scalar" or n == 1 or (f == "ring" and n < 3):
        v = rv(rng, SC)
        return {"form": "scalar", "v": v}, (v / SC if v % SC or rng.random() < .5 else int(v // SC))
    if f == "ring":
        v = [rv(rng, SC) for _ in range(n)]
        return {"form": "ring", "v": v}, np.array(v) / SC
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = rv(rng, SC)
    return {"form": "full", "v": m}, np.array(m) / SC


def field(rng, n, zero=.3, SC=SC):
    if rng.random() < zero:
        return {"form": "scalar", "v": 0}, 0.0
    if rng.random() < .5:
        v = rv(rng, SC)
        return {"form": "scalar", "v": v}, v / SC
    v = [rv(rng, SC) for _ in range(n)]
    return {"form": "site", "v": v}, np.array(v) / SC


def sqmat(q, m, cols=None, SC=SC):
    """entries of 2*SC*m: value on the diagonal, signed squares off it"""
    m = sp.coo_matrix(m)
    m.sum_duplicates()
    e = []
    for r, c, v in zip(m.row, m.col, m.data):
        if cols is not None and c not in cols:
            continue
        z = complex(v) * 2 * SC
        if r == c:
            a, b = q.i(z.real), q.i(z.imag)
        else:
            a, b = q.i(np.sign(z.real) * z.real ** 2), q.i(np.sign(z.imag) * z.imag ** 2)
        if a or b:
            e.append([int(r), int(c), a, b])
    return {"nr": int(m.shape[0]), "nc": int(m.shape[1]), "e": sorted(e)}


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 12
    jobs = []

    def case(k, g, tw, seed, large=False):
        import random
        r = random.Random(seed)
        d = desc(g)
        n = d["n"]
        b = tw + 1
        SC = r.choice([4, 4, 4, 1024])
        p, kw = {}, {}
        for a in ("jx", "jy", "jz"):
            p[a], kw[a] = coup(r, n, SC=SC)
        for a in ("hx", "hy", "hz"):
            p[a], kw[a] = field(r, n, SC=SC)
        p["ryd"] = r.random() < .3
        base = {"S": system("spin", n, 1, b), "G": d, "p": p, "tw": tw, "bad": False}
        if large:
            base["cols"] = sorted(r.sample(range(b ** n), 16))
        win = base.get("cols")
        rows = sorted(r.sample(range(b ** n), r.randint(1, b ** n)))

        def go():
            keep = {a: np.array(x, copy=True) for a, x in kw.items()}
            hold = {}

            def ham():
                if k % 2:
                    M = spinSystem(g, kw["jx"], kw["jy"], kw["jz"], kw["hx"], kw["hy"], kw["hz"], p["ryd"], tw / 2)
                else:
                    M = spinSystem(g, use_ryd_detunes=p["ryd"], spin=tw / 2, **kw)
                hold["M"] = M
                return M.createH(print_results=bool(k % 4 == 0))
            ok, _ = rec.ev("ham-%d" % k, "ham", base, ham,
                           lambda r_, q: {"m": sqmat(q, r_, win, SC), "pure": bool(all(np.array_equal(np.array(kw[a]), x) for a, x in keep.items()))})
            if not ok:
                return
            M = hold["M"]
            if k % 2 and not large:
                P = sp.csr_matrix((np.ones(len(rows)), (np.arange(len(rows)), rows)), shape=(len(rows), b ** n))
                rec.ev("sub-%d" % k, "sub", dict(base, rows=rows), lambda: M.createH(projector=P), lambda r_, q: {"m": sqmat(q, r_, None, SC)})
            if tw == 1 and not large:       # matrix elements are integers: any projector
                rows_, PM = rand_rows(r, b ** n, "dense")
                rec.ev("proj-%d" % k, "proj", dict(base, P=rows_), lambda: M.createH(projector=PM), lambda r_, q: {"m": q.smat(r_, 2 * SC)})
            if k % 3 == 0:
                rec.ev("detune-%d" % k, "detune", base, lambda: M.get_rydberg_detunes(M.jz), lambda r_, q: {"v": q.vec(r_, SC)})
        return go

    k = 0
    lim = {1: 6 if big else 5, 2: 4, 3: 3, 4: 3}
    for tw, cnt in ((1, 70), (2, 30), (3, 20), (4, 8)):
        for g in small_geoms(rng, lim[tw], cnt * (4 if big else 1), twist=False):
            if (tw + 1) ** g.nsites > (125 if big else 81):
                continue
            jobs.append(case(k, g, tw, rng.randrange(10 ** 9)))
            k += 1

    # larger systems, on a sample of the columns
    k = 1000
    for tw, lo, top, cnt in ((1, 7, 10, 14), (2, 5, 6, 5), (3, 4, 5, 4), (5, 3, 3, 3)):
        got = 0
        while got < cnt * (4 if big else 1):
            g = small_geoms(rng, top, 1, twist=False)[0]
            if g.nsites < lo:
                continue
            jobs.append(case(k, g, tw, rng.randrange(10 ** 9), True))
            k += 1
            got += 1

    def c6(k, n, m, o):
        def go():
            g = Geometry.createSquareGeometry(n, m, 0, 0, o, o or m == 1)
            r2 = np.round(np.asarray(g.xdist_mat) ** 2 + np.asarray(g.ydist_mat) ** 2).astype(int).tolist()
            M = spinSystem(g, 1.0)
            rec.ev("c6-%d" % k, "c6", {"S": system("spin", g.nsites), "r2": r2, "c6": 3 * 64000, "bad": False},
                   lambda: M.get_interaction_mat_c6(3.0), lambda r_, q: {"j": [[q.near(x, 64000) for x in row] for row in np.asarray(r_)]})
        return go
    for k, (n, m, o) in enumerate([(3, 1, True), (2, 2, True), (3, 3, False), (2, 3, True), (4, 4, False), (6, 1, True), (8, 1, False), (5, 2, True)]):
        jobs.append(c6(k, n, m, o))

    def bad(k, n, kw):
        def go():
            rec.ev("bad-%d" % k, "ham", {"S": system("spin", n), "bad": True}, lambda: spinSystem(chain(n), **kw).createH(), lambda r_, q: {})
        return go
    for k, (n, kw) in enumerate([(3, dict(jz=np.ones(2))), (3, dict(jx=np.ones((2, 2)))), (3, dict(jy="a")), (3, dict(hz=np.ones(2))),
                                 (3, dict(hx=np.ones((3, 3)))), (4, dict(hy=None))]):
        jobs.append(bad(k, n, kw))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
