import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from geos import small_geoms, desc

SC = 4   # couplings are multiples of 1/4


def herm_ok(d):
    n = d["n"]
    return all((d["ph"][i][j] + d["ph"][j][i]) % 4 == 0 or not d["adj"][i][j] for i in range(n) for j in range(n))


def rv(rng, zero=.15, lo=-9, hi=9):
    return 0 if rng.random() < zero else rng.randint(lo, hi)


def make_params(rng, n, ns, cplx=True, SC=SC):
    """-> (spec params, python kwargs)"""
    p, kw = {}, {}
    f = rng.choice(["scalar", "species", "full"])
    if f == "scalar":
        v = rv(rng)
        p["t"] = {"form": "scalar", "v": [v, 0]}
        kw["ts"] = v / SC
    elif f == "species" and ns > 1:
        v = [rv(rng) for _ in range(ns)]
        p["t"] = {"form": "species", "v": [[x, 0] for x in v]}
        kw["ts"] = [x / SC for x in v] if rng.random() < .5 else np.array(v) / SC
    else:
        t = np.zeros((n, n, ns), dtype=complex)
        c = cplx and rng.random() < .6
        for k in range(ns):
            for i in range(n):
                for j in range(i):
                    if rng.random() < .6:
                        t[i, j, k] = rv(rng) + (1j * rv(rng) if c else 0)
                        t[j, i, k] = np.conj(t[i, j, k])
        if not c:
            t = t.real
        p["t"] = {"form": "full", "v": [[[[int(complex(t[i, j, k]).real), int(complex(t[i, j, k]).imag)] for k in range(ns)]
                                        for j in range(n)] for i in range(n)]}
        kw["ts"] = t[:, :, 0] / SC if ns == 1 and rng.random() < .5 and n > 1 else t / SC
        if kw["ts"].size == ns or kw["ts"].size == 1:     # one site: would be read as a number
            p["t"] = {"form": "scalar", "v": [0, 0]}
            kw["ts"] = 0.
    # inter-species
    if ns != 2:
        p["u"] = {"form": "scalar", "v": 0}
        kw["us_interspecies"] = 0
    elif rng.random() < .5:
        v = rv(rng)
        p["u"] = {"form": "scalar", "v": v}
        kw["us_interspecies"] = v / SC
    else:
        v = [rv(rng) for _ in range(n)]
        p["u"] = {"form": "site", "v": v}
        kw["us_interspecies"] = np.array(v) / SC
        if n == 1:
            p["u"] = {"form": "scalar", "v": v[0]}
    # same species
    f = rng.choice(["none", "scalar", "species", "full"])
    if f == "none":
        p["v"] = {"form": "scalar", "v": 0}
    elif f == "scalar" or n == 1:
        v = rv(rng)
        p["v"] = {"form": "scalar", "v": v}
        kw["us_same_species"] = v / SC
    elif f == "species" and ns > 1:
        v = [rv(rng) for _ in range(ns)]
        p["v"] = {"form": "species", "v": v}
        kw["us_same_species"] = np.array(v) / SC
    else:
        m = np.zeros((n, n, ns))
        for k in range(ns):
            for i in range(n):
                for j in range(i + 1):
                    m[i, j, k] = m[j, i, k] = rv(rng, .5)
        p["v"] = {"form": "full", "v": m.astype(int).tolist()}
        kw["us_same_species"] = m[:, :, 0] / SC if ns == 1 and rng.random() < .5 else m / SC
    # chemical potential
    f = rng.choice(["none", "scalar", "species"])
    if f == "none":
        p["mu"] = {"form": "scalar", "v": 0}
    elif f == "scalar" or ns == 1:
        v = rv(rng)
        p["mu"] = {"form": "scalar", "v": v}
        kw["mus"] = v / SC
    else:
        v = [rv(rng) for _ in range(ns)]
        p["mu"] = {"form": "species", "v": v}
        kw["mus"] = [x / SC for x in v] if rng.random() < .5 else np.array(v) / SC
    # potential
    f = rng.choice(["none", "scalar", "species", "full"])
    if f == "none":
        p["pot"] = {"form": "scalar", "v": 0}
    elif f == "scalar":
        v = rv(rng)
        p["pot"] = {"form": "scalar", "v": v}
        kw["potentials"] = v / SC
    elif f == "species" and ns > 1:
        v = [rv(rng) for _ in range(ns)]
        p["pot"] = {"form": "species", "v": v}
        kw["potentials"] = np.array(v) / SC
    else:
        m = [[rv(rng, .3) for _ in range(ns)] for _ in range(n)]
        p["pot"] = {"form": "full", "v": m}
        a = np.array(m) / SC
        if n == 1:
            p["pot"] = {"form": "species", "v": m[0]}
        kw["potentials"] = a[:, 0] if ns == 1 and rng.random() < .5 else a
    return p, kw


def rand_rows(rng, D, kind):
    if kind == "rows":
        r = sorted(rng.sample(range(D), rng.randint(1, max(1, D // 2))))
        if rng.random() < .3:
            rng.shuffle(r)
        P = [[[c, 1, 0]] for c in r]
    elif kind == "vec":       # one or two states spread over many basis states
        P = []
        for _ in range(rng.randint(1, 2)):
            cs = rng.sample(range(D), min(D, 14))
            P.append([[c, rng.randint(-2, 2) or 1, rng.randint(-1, 1)] for c in cs])
    else:
        P = []
        for _ in range(rng.randint(1, 5)):
            cs = rng.sample(range(D), min(D, rng.randint(1, 3)))
            P.append([[c, rng.randint(-2, 2) or 1, rng.randint(-1, 1)] for c in cs])
    M = sp.lil_matrix((len(P), D), dtype=complex)
    for a, row in enumerate(P):
        for c, x, y in row:
            M[a, c] = x + 1j * y
    M = M.tocsr()
    if kind == "rows":
        M = M.real
    return P, M


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 14
    jobs = []
    NLMAX = 7 if big else 6

    def case(k, g, ns, seed, large=False):
        import random
        r = random.Random(seed)
        d = desc(g)
        n = d["n"]
        S = system("fermion", n, ns)
        SC = r.choice([4, 4, 4, 64, 2048])     # some models have couplings of a few thousandths
        p, kw = make_params(r, n, ns, SC=SC)
        proj = r.random() < .5 and not large
        kind = r.choice(["rows", "gen", "vec"])
        P, PM = rand_rows(r, 2 ** (n * ns), kind) if proj else ([], None)
        base = {"S": S, "G": d, "p": p, "proj": proj, "P": P, "bad": False}
        if large:
            base["cols"] = sorted(r.sample(range(2 ** (n * ns)), 16))
        win = base.get("cols")

        def go():
            keep = {a: np.array(b, copy=True) for a, b in kw.items()}
            holder = {}

            def ham():
                M = fermions(g, nspecies=ns, **kw) if k % 2 else \
                    fermions(g, kw["us_interspecies"], kw["ts"], None, kw.get("mus", 0), kw.get("potentials", 0),
                             kw.get("us_same_species", 0), ns)
                holder["M"] = M
                if PM is not None:
                    return M.createH(projector=PM, print_results=bool(k % 3 == 0))
                return M.createH(print_results=bool(k % 3 == 0))
            ok, _ = rec.ev("ham-%d" % k, "ham", base, ham,
                           lambda r_, q: {"m": q.smat(r_, SC, cols=win), "pure": bool(all(np.array_equal(np.array(kw[a]), b) for a, b in keep.items()))})
            M = holder.get("M")
            if M is None or not ok:
                return
            w = k % 5
            e = lambda r_, q: {"m": q.smat(r_, SC, cols=win)}
            dx, dy = np.asarray(g.xdist_mat), np.asarray(g.ydist_mat)
            ints = np.allclose(dx, np.round(dx)) and np.allclose(dy, np.round(dy))
            dirs = [[1, 0], [0, 1], [2, 0], [0, 3], [1, 1]][k % 5]
            axis = all(not (round(dx[i, j]) and round(dy[i, j]) and dirs[0] and dirs[1]) for i in range(n) for j in range(n)) if ints else False
            if ints and axis:
                rec.ev("kin-%d" % k, "kin", dict(base, d=dirs, dx=np.round(dx).astype(int).tolist(), dy=np.round(dy).astype(int).tolist()),
                       (lambda: M.get_kinetic_op(projector=PM)) if dirs == [1, 0] and k % 2 else
                       (lambda: M.get_kinetic_op(projector=PM, direction_vect=np.array(dirs))), e)
                f = r.choice([2, 4, 8])
                rec.ev("kinf-%d" % k, "kin", dict(base, d=dirs, dx=np.round(dx).astype(int).tolist(), dy=np.round(dy).astype(int).tolist()),
                       lambda: M.get_kinetic_op(projector=PM, direction_vect=np.array(dirs) / f), lambda r_, q: {"m": q.smat(r_, SC * f, cols=win)})
            if ns == 2:
                us = M.us_interspecies
                if p["u"]["form"] == "scalar" and k % 2:
                    us = p["u"]["v"] / SC
                rec.ev("uinter-%d" % k, "uinter", base, lambda: M.get_u_interspecies_op(us, projector=PM), e)
                U = r.choice([-3, -1, 1, 2, 7])
                rec.ev("uint-%d" % k, "uinter", dict(base, p=dict(p, u={"form": "scalar", "v": SC * U})),
                       lambda: M.get_u_interspecies_op(U, projector=PM), e)
            if w == 1:
                rec.ev("usame-%d" % k, "usame", base, lambda: M.get_u_samespecies_op(M.us_same_species, projector=PM), e)
            if w == 2:
                rec.ev("mu-%d" % k, "mu", base, lambda: M.get_chemical_pot_op(M.mus, projector=PM), e)
            if w == 3:
                rec.ev("pot-%d" % k, "pot", base, lambda: M.get_potential_op(M.potentials, projector=PM), e)
        return go

    k = 0
    for ns, cnt in ((1, 40), (2, 50), (3, 14)):
        for g in small_geoms(rng, NLMAX // ns, cnt * (4 if big else 1)):
            d = desc(g)
            if not herm_ok(d):
                continue
            jobs.append(case(k, g, ns, rng.randrange(10 ** 9)))
            k += 1

    # larger systems, on a sample of the columns
    k = 1000
    for ns, top, cnt in ((1, 11, 10), (2, 5, 12), (3, 3, 5), (4, 2, 4)):
        got = 0
        while got < cnt * (4 if big else 1):
            g = small_geoms(rng, top, 1)[0]
            if g.nsites * ns < 7 or not herm_ok(desc(g)):
                continue
            jobs.append(case(k, g, ns, rng.randrange(10 ** 9), True))
            k += 1
            got += 1

    # inputs that do not describe a Hamiltonian
    def bad(k, n, ns, kw):
        def go():
            args = {"us_interspecies": 0, "ts": 1}
            args.update(kw)
            rec.ev("bad-%d" % k, "ham", {"S": system("fermion", n, ns), "G": {"n": n, "adj": [], "ph": []}, "p": {}, "proj": False,
                                        "P": [], "bad": True}, lambda: fermions(chain(n), nspecies=ns, **args).createH(),
                   lambda r_, q: {})
        return go
    bads = [(3, 2, dict(ts=np.ones(4))), (3, 2, dict(ts=np.ones((3, 3)))), (3, 1, dict(ts=np.ones((2, 2)))),
            (3, 2, dict(ts=np.ones((2, 3, 3)))), (3, 2, dict(us_interspecies=np.ones(2))), (3, 2, dict(us_interspecies=np.ones(4))),
            (3, 2, dict(us_same_species=np.ones(5))), (3, 2, dict(us_same_species=np.ones((3, 3)))),
            (3, 2, dict(mus=np.ones(3))), (3, 2, dict(potentials=np.ones(3))), (3, 2, dict(potentials=np.ones((2, 3)))),
            (4, 2, dict(ns=[1, 1, 1])), (4, 2, dict(ns=[1])), (4, 1, dict(ns=[1, 1])), (3, 1, dict(ts=1j)), (3, 2, dict(ts=[1, 2j])),
            (3, 2, dict(us_same_species=np.ones((2, 3, 3)))), (3, 2, dict(ts=np.ones((3, 2, 3)))), (3, 3, dict(ts=np.ones(2))),
            (3, 1, dict(us_same_species=np.ones((2, 2)))), (3, 3, dict(us_same_species=np.ones(2))), (3, 1, dict(us_interspecies=np.ones(2))),
            (3, 2, dict(us_same_species=np.ones(18))), (3, 2, dict(ts=np.ones(18))), (4, 2, dict(potentials=np.ones(8))),
            (4, 2, dict(potentials=np.ones((4, 3)))), (4, 1, dict(potentials=np.ones(5))), (4, 1, dict(potentials=np.ones((1, 4)))),
            (4, 3, dict(mus=np.ones(2))), (4, 1, dict(mus=np.ones(2))), (4, 3, dict(ns=[1, 1])), (4, 2, dict(ns=[])), (4, 2, dict(ts=[1j, 1]))]
    for j, b in enumerate(bads):
        jobs.append(bad(j, *b))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
