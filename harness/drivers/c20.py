import random
import numpy as np
from core import main, share
from exact_diag import greens_fns as gf

L2 = np.log(2)
V = 10000


def same(a, b):
    return np.array_equal(np.asarray(a), b)


def grid(r, lo, hi, n, drop=()):
    pool = [x for x in range(lo, hi + 1) if x not in drop]
    return sorted(r.sample(pool, min(n, len(pool))))


def cints(r, n, lim=4, real=False):
    return [[r.randint(-lim, lim), 0 if real else r.randint(-lim, lim)] for _ in range(n)]


def cplx(v):
    a = np.array([x + 1j * y for x, y in v])
    return a.real.copy() if all(y == 0 for _, y in v) else a


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 60
    jobs = []
    F = {True: "fermion", False: "boson"}

    def job(name, k, f):
        seed = rng.randrange(10 ** 9)
        jobs.append(lambda: f("%s-%d" % (name, k), random.Random(seed)))

    def matsubara(id, r):
        m, fermi = r.randint(0, 25), r.random() < .5
        beta = r.choice([.1, .37, 1., 2., np.pi, 5.5, 40.])
        mx = (m + .5) * np.pi / beta
        kw = {} if fermi and r.random() < .5 else {"format": F[fermi]}
        rec.ev(id, "matsubara", {"m": m, "fermi": fermi}, lambda: gf.get_matsubara_frqs(beta, mx, **kw), lambda o, q: {"w": q.vec(o, beta / np.pi)})

    def spectral(id, r):
        op = r.choice(["frq", "time", "frqkernel", "timekernel"])
        fermi = r.random() < .6
        tm = "time" in op
        ker = "kernel" in op
        lim = 5 if tm else 8
        drop = [] if (tm and fermi) else ([0] if tm else [])
        x = grid(r, -lim, lim, r.randint(2, 8), drop)
        if r.random() < .3:
            x = [y for y in range(x[0], x[0] + r.randint(2, 6)) if y not in drop]
            x = x if len(x) > 1 else [1, 3]
        A = [r.randint(-4, 4) for _ in x]
        X, Aa = np.array(x, dtype=float), np.array(A, dtype=float)
        if tm:
            b = r.randint(1, 2) if max(map(abs, x)) > 3 else r.randint(1, 3)
            t = [r.randint(0, b) for _ in range(r.randint(1, 4))]
            T = np.array(t) * L2
            beta = b * L2
            kw = {} if fermi and r.random() < .5 else {"format": F[fermi]}
            if ker:
                # the first kernel takes the same grid
                rec.ev(id, op, {"x": x, "t": t, "b": b, "fermi": fermi}, lambda: gf.get_grnfn_imagtime_spectralfn_kernel(T, beta, X, **kw),
                       lambda o, q: {"k": [q.nvec(row, 4 * np.pi * V) for row in np.asarray(o)]})
            else:
                rec.ev(id, op, {"x": x, "A": A, "t": t, "b": b, "fermi": fermi}, lambda: gf.get_grnfn_imagtime_spectralfn(T, beta, X, Aa, **kw),
                       lambda o, q: {"g": q.nvec(o, 4 * np.pi * V), "pure": same(X, np.array(x)) and same(Aa, np.array(A)) and same(T, np.array(t) * L2)})
        else:
            w = [r.choice([-7, -5, -3, -2, -1, 1, 2, 3, 6, 9]) for _ in range(r.randint(1, 5))]
            W = np.array(w, dtype=float)
            if ker:
                kw = {} if r.random() < .5 else {"format": F[fermi]}
                rec.ev(id, op, {"x": x, "w": w}, lambda: gf.get_grnfn_imagfrq_spectralfn_kernel(W, X, **kw),
                       lambda o, q: {"k": [[q.cnear(y, 4 * np.pi * V) for y in row] for row in np.asarray(o)]})
            else:
                rec.ev(id, op, {"x": x, "A": A, "w": w}, lambda: gf.get_grnfn_imagfrq_spectralfn(W, X, Aa),
                       lambda o, q: {"g": [q.cnear(y, 4 * np.pi * V) for y in np.ravel(o)], "pure": same(X, np.array(x)) and same(Aa, np.array(A)) and same(W, np.array(w))})

    def ft(id, r):
        beta = r.randint(1, 8)
        w = [r.randint(-9, 9) for _ in range(r.randint(1, 6))]
        W = np.array(w) * np.pi / 2
        if r.random() < .5:
            while True:
                t = grid(r, r.choice([0, 0, -3]), beta + r.choice([0, 0, 3]), r.randint(2, 8))
                if r.random() < .5:
                    t = sorted(set(t) | {0, beta})
                if len([y for y in t if 0 <= y <= beta]) >= 2:
                    break
            g = cints(r, len(t), real=r.random() < .5)
            T, Gc = np.array(t, dtype=float), cplx(g)
            if r.random() < .3:
                T = T + np.array([r.choice([0, 1e-15, -1e-15]) for _ in t])
            keep = T.copy(), Gc.copy()
            rec.ev(id, "toFrq", {"t": t, "g": g, "w": w, "beta": beta}, lambda: gf.grnfn_imagtime_ft(W, T, Gc, float(beta)),
                   lambda o, q: {"g": q.cvec(o, 2), "pure": same(T, keep[0]) and same(Gc, keep[1])})
        else:
            t = [r.randint(-6, 8) for _ in range(r.randint(1, 6))]
            g = cints(r, len(w), real=r.random() < .3)
            T, Gc = np.array(t, dtype=float), cplx(g)
            keep = Gc.copy()
            rec.ev(id, "toTime", {"t": t, "g": g, "w": w}, lambda: gf.grnfn_imagfrq_ft(T, W, Gc, float(beta)),
                   lambda o, q: {"g": q.cvec(o, beta), "pure": same(Gc, keep)})

    def free(id, r):
        op = r.choice(["freeTau", "freeFrq", "spectral"])
        e = r.randint(-5, 5)
        if op == "freeTau":
            b = r.randint(1, 3)
            t = [x for x in [r.randint(-b, b) for _ in range(r.randint(1, 5))] if x] or [b]
            kw = {} if r.random() < .5 else {"format": "fermion"}
            rec.ev(id, op, {"e": e, "b": b, "t": t}, lambda: gf.get_noninteracting_gfn_tau(np.array(t) * L2, e, b * L2, **kw), lambda o, q: {"g": q.nvec(o, V)})
        elif op == "freeFrq":
            k, m = r.randint(1, 4), r.randint(1, 12)
            rec.ev(id, op, {"e": e, "k": k, "m": m}, lambda: gf.get_noninteracting_gfn_imagfrq(k * (m + .5), e, np.pi / k),
                   lambda o, q: {"g": [q.cnear(x, V) for x in np.ravel(o[0])], "w": q.vec(o[1])})
        else:
            h = r.randint(1, 4)
            w = [r.randint(-9, 9) for _ in range(r.randint(1, 6))]
            rec.ev(id, op, {"e": e, "h": h, "w": w}, lambda: gf.get_noninteracting_spectral_fn(np.array(w, dtype=float), e, h), lambda o, q: {"a": q.nvec(o, V)})

    def hydro(id, r):
        w = [r.randint(-6, 6) for _ in range(r.randint(1, 5))]
        W = np.array(w, dtype=float)
        if r.random() < .3:
            c, h = r.randint(-4, 4), r.randint(1, 4)
            rec.ev(id, "snap", {"w": w, "c": c, "h": h}, lambda: gf.field_snap_off_w(W, c, h), lambda o, q: {"c": [q.cnear(x, V) for x in np.ravel(o)]})
            return
        k, c, d0, d2, g = r.choice([1, 2, -1]), r.randint(-3, 3), r.randint(1, 3), r.choice([0, 0, 1]), r.choice([0, 0, 1, 2, 3])
        kw = {}
        if d2:
            kw["d2"] = d2
        if g or r.random() < .3:
            kw["gamma"] = float(g) if g else np.inf
        rec.ev(id, "hydro", {"w": w, "k": k, "c": c, "d0": d0, "d2": d2, "g": g}, lambda: gf.chi_hydro(W, k, c, d0, **kw),
               lambda o, q: {"c": [q.cnear(x, V) for x in np.ravel(o)]})

    def back(id, r):
        x = grid(r, -6, 6, r.randint(2, 7))
        f, h = cints(r, len(x), 3), cints(r, len(x), 3)
        q0 = [r.randint(-4, 4) for _ in range(r.randint(1, 5))]
        field = r.random() < .5
        X, T, Fc, H = np.array(x, dtype=float), np.array(q0) * np.pi / 2, cplx(f), cplx(h)
        keep = Fc.copy(), H.copy()
        rec.ev(id, "back", {"x": x, "f": f, "h": h, "q": q0, "field": field}, lambda: gf.obs_kt(T, X, Fc, H) if field else gf.phi_t(T, X, Fc),
               lambda o, q: {"g": q.cvec(o, 4 * np.pi), "pure": same(Fc, keep[0]) and same(H, keep[1]) and same(X, np.array(x))})
    m = 8 if big else 1
    for k in range(60 * m):
        job("matsubara", k, matsubara)
    for k in range(240 * m):
        job("spectral", k, spectral)
    for k in range(160 * m):
        job("ft", k, ft)
    for k in range(120 * m):
        job("free", k, free)
    for k in range(80 * m):
        job("hydro", k, hydro)
    for k in range(80 * m):
        job("back", k, back)
    one = np.array([1., 2.])
    for id, fn in [("matsubara", lambda: gf.get_matsubara_frqs(1., 30, "anyon")), ("time", lambda: gf.get_grnfn_imagtime_spectralfn(one, 1., one, one, "anyon")),
                   ("kernel", lambda: gf.get_grnfn_imagtime_spectralfn_kernel(one, 1., one, "anyon")), ("free", lambda: gf.get_noninteracting_gfn_tau(one, 1., 1., "anyon")),
                   ("frq", lambda: gf.get_noninteracting_gfn_imagfrq(10, 1., 1., "anyon"))]:
        jobs.append(lambda id=id, fn=fn: rec.ev("reject-" + id, "reject", {}, fn))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
