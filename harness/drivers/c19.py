import random
import numpy as np
from core import main, share
from exact_diag import fermi_gas as fg

L2 = np.log(2)
U = 20000
C2 = {(n, a): int(round(2 * np.cos(2 * np.pi * a / n))) for n in (2, 3, 4, 6) for a in range(n)}


def beta(b):
    return np.inf if b == -1 else b * L2


def energy(n, d, k):
    return -C2[n, k[0] % n] - (C2[n, k[1] % n] if d == 2 else 0)


def same(a, b):
    return np.array_equal(np.asarray(a), b)


def pick(r, inf=.15, top=4):
    """(b, m2): finite b with b*m2 even"""
    if r.random() < inf:
        return -1, r.choice([-9, -7, -5, -3, -1, 1, 3, 5, 7])
    b = r.choice([0, 1, 1, 2, 2, 3, top])
    return b, (r.randint(-5, 5) * 2 if b % 2 or r.random() < .7 else 2 * r.randint(-4, 4) + 1)


def spread(r, nmax=4, inf=.15, even=False):
    """equal-length lists of b and m2 in one of the admissible calling patterns"""
    n = r.choice([1, 1, 1, 2, 3, nmax])
    ok = lambda b, m: (m % 2 == 0 if even else (b == -1 and m % 2) or (b != -1 and b * m % 2 == 0))
    while True:
        ps = [pick(r, inf) for _ in range(n)]
        if even:
            ps = [(b, m if m % 2 == 0 else m + 1) for b, m in ps if b != -1]
            if not ps:
                continue
        pat = r.randrange(3)
        bs, ms = [p[0] for p in ps], [p[1] for p in ps]
        if pat == 1:
            bs = [bs[0]] * len(bs)
        if pat == 2:
            ms = [ms[0]] * len(ms)
        if all(ok(b, m) for b, m in zip(bs, ms)):
            return bs, ms, pat


def args(r, bs, ms, pat):
    B = np.array([beta(b) for b in bs], dtype=float)
    M = np.array([m / 2 for m in ms], dtype=float)
    if len(bs) == 1:
        return (B if r.random() < .4 else float(B[0])), (M if r.random() < .4 else float(M[0]))
    if pat == 1:
        B = r.choice([B, B[:1], float(B[0])])
    if pat == 2:
        M = r.choice([M, M[:1], float(M[0])])
    if len(bs) == 4 and np.size(B) == 4 and np.size(M) == 4 and r.random() < .5:
        return B.reshape(2, 2), M.reshape(2, 2)
    return B, M


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 60
    jobs = []

    def shapes(r):
        return r.choice([((), (), ()), ((3,), (), ()), ((), (3,), ()), ((), (), (4,)), ((3,), (3,), (3,)), ((2, 1), (1, 3), ()), ((2, 1), (), (3,)),
                         ((1,), (2, 2), (2, 2)), ((2, 1, 1), (3, 1), (2,))])

    def fermi(k, seed, op):
        def go():
            r = random.Random(seed)
            sb, sm, se = shapes(r)
            half = r.random() < .4
            bs = np.array([r.choice([0, 1, 2, 3, 4] if not half else [0, 2, 4]) if op == "deriv" or r.random() < .7 or half else -1
                           for _ in range(int(np.prod(sb)))]).reshape(sb)
            m2 = np.array([2 * r.randint(-4, 4) + half for _ in range(int(np.prod(sm)))]).reshape(sm)
            e2 = np.array([2 * r.randint(-4, 4) for _ in range(int(np.prod(se)))]).reshape(se)
            X = np.broadcast_arrays(bs, e2 - m2)
            P = [[int(a), int(b)] for a, b in zip(X[0].ravel(), X[1].ravel())]
            sh = list(X[0].shape) or [1]
            B = np.vectorize(beta, otypes=[float])(bs) if bs.size else bs
            B = float(B) if B.ndim == 0 and r.random() < .7 else np.asarray(B)
            M = m2 / 2 if m2.ndim else (float(m2) / 2)
            E = e2 / 2 if e2.ndim else (int(e2) // 2 if r.random() < .5 else float(e2) / 2)
            # the energy unit is 2^-s
            un = 2. ** -r.choice([0, 0, 0, 4, 7, -2])
            B, M, E = B / un, M * un, E * un
            keep = [np.array(x) for x in (B, M, E)]
            pure = lambda: all(same(x, y) for x, y in zip((B, M, E), keep))
            if op == "fermi":
                rec.ev("fermi-%d" % k, "fermi", {"p": P, "sh": sh}, lambda: fg.fermi(B, M, E),
                       lambda f, q: {"v": q.nvec(f, U), "sh": list(np.shape(f)), "pure": pure()})
            else:
                rec.ev("deriv-%d" % k, "deriv", {"p": P, "sh": sh}, lambda: fg.fermi_derivatives(B, M, E),
                       lambda f, q: {"m": q.nvec(np.asarray(f[0]) * un, U), "e": q.nvec(np.asarray(f[1]) * un, U), "b": q.nvec(np.asarray(f[2]) / un, U),
                                     "sh": list(np.shape(f[0])) if len({np.shape(x) for x in f}) == 1 else [], "pure": pure()})
        return go
    for k in range(600 if big else 120):
        jobs.append(fermi(k, rng.randrange(10 ** 9), "fermi"))
        jobs.append(fermi(k, rng.randrange(10 ** 9), "deriv"))

    def kvects(nx, ny, mode):
        def go():
            call = (lambda: fg.get_allowed_kvects(nx, ny, mode)) if mode else (lambda: fg.get_allowed_kvects(nx, ny))
            rec.ev("kvects-%d-%d-%s" % (nx, ny, mode), "kvects", {"nx": nx, "ny": ny, "mode": mode or "balanced"}, call,
                   lambda o, q: {"kx": q.mat(o[0], nx / (2 * np.pi)), "ky": q.mat(o[1], ny / (2 * np.pi)),
                                 "dk": [q.i(o[2], nx / (2 * np.pi)), q.i(o[3], ny / (2 * np.pi))]})
        return go
    for nx in range(1, 14 if big else 9):
        for ny in range(1, 14 if big else 9):
            for mode in ("", "balanced", "positive"):
                if big or (nx + 2 * ny + len(mode)) % 3 == 0 or nx == ny:
                    jobs.append(kvects(nx, ny, mode))

    def reject(id, fn):
        return lambda: rec.ev("reject-" + id, "reject", {}, fn)
    jobs += [reject("mode", lambda: fg.get_allowed_kvects(3, 4, "centred")),
             reject("dim", lambda: fg.fg_density(1., 0., nsites=4, dim="3d")),
             reject("dim-response", lambda: fg.fg_density_response(1., 0., nsites=4, dim="3d")),
             reject("dim-dos", lambda: fg.get_dos2(10, dim="3d")),
             reject("type", lambda: fg.fg_realspace_gfn(1., 0., nsites=4, type="matsubara")),
             reject("sizes", lambda: fg.fg_density(np.array([1., 2.]), np.array([0., 1., 2.]), nsites=4)),
             reject("sizes-mu", lambda: fg.fg_mu(np.array([1., 2.]), np.array([.1, .2, .3]), nsites=4)),
             reject("sizes-response", lambda: fg.fg_density_response(np.array([1., 2.]), np.array([.1, .2, .3]), nsites=4)),
             reject("ks-1d", lambda: fg.fg_kspace_gfns(1., 0., np.zeros((3, 2)), dim="1d")),
             reject("ks-2d", lambda: fg.fg_kspace_gfns(1., 0., np.zeros(3), dim="2d"))]

    def spacing(k, seed):
        def go():
            r = random.Random(seed)
            while True:
                sh = r.choice([(2,), (5,), (8,), (2, 3), (3, 3), (2, 2, 2)])
                e = np.array([r.randint(-9, 9) for _ in range(int(np.prod(sh)))]).reshape(sh)
                if len(set(e.ravel().tolist())) > 1:
                    break
            n = len(set(e.ravel().tolist())) - 1
            es = e / 4 + (1e-14 * r.choice([0, 1]) * np.arange(e.size).reshape(sh))
            rec.ev("spacing-%d" % k, "spacing", {"e": e.ravel().tolist()}, lambda: fg.get_energy_spacing(es),
                   lambda o, q: {"v": [q.i(o[0], 4), q.i(o[1], 4), q.i(o[2], 4 * n)]})
        return go

    def dos(k, seed):
        def go():
            r = random.Random(seed)
            sh = r.choice([(1,), (5,), (8,), (2, 3), (4, 4)])
            e = np.array([r.randint(-6, 6) for _ in range(int(np.prod(sh)))]).reshape(sh)
            edge = [r.randint(-8, 2)]
            for _ in range(r.randint(1, 5)):
                edge.append(edge[-1] + r.choice([1, 2, 4]))
            es, ee = e.astype(float), np.array(edge, dtype=float)
            rec.ev("dos-%d" % k, "dos", {"e": e.ravel().tolist(), "edge": edge}, lambda: fg.get_dos(es, ee),
                   lambda o, q: {"v": q.vec(o, 4 * e.size), "pure": same(es, e) and same(ee, np.array(edge))})
        return go
    for k in range(200 if big else 50):
        jobs.append(spacing(k, rng.randrange(10 ** 9)))
        jobs.append(dos(k, rng.randrange(10 ** 9)))

    def dos2(n, d):
        def go():
            es = [-2 * np.cos(2 * np.pi * a / n) for a in range(n)]
            lo, hi = min(es) * d, max(es) * d
            rec.ev("dos2-%d-%dd" % (n, d), "dos2", {"lo": round(lo * 1000), "band": round((hi - lo) * 1000)},
                   lambda: fg.get_dos2(n, "%dd" % d), lambda o, q: {"v": q.nvec(o[0], 1000), "e": q.nvec(o[1], 1000)}, timeout=60)
        return go
    for n, d in [(10, 1), (10, 2), (31, 2), (100, 1), (100, 2), (200, 2), (301, 2), (4000, 1), (15001, 1)] + ([(500, 2), (40000, 1)] if big else []):
        jobs.append(dos2(n, d))

    TYPES = ["greater", "lesser", "retarded", "advanced", "time-ordered"]

    def kspace(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 6]), r.choice([1, 2])
            type = r.choice(TYPES)
            nk = r.choice([1, 1, 2, 3, 5])
            ks = [(r.randint(-n, 2 * n), r.randint(-n, 2 * n) if d == 2 else 0) for _ in range(nk)]
            vary = r.randrange(4) if nk > 1 else 3
            q0 = [r.randint(-5, 5) for _ in range(nk)]
            b0 = [r.choice([0, 1, 2, 3, 4]) for _ in range(nk)]
            m0 = [r.randint(-4, 4) for _ in range(nk)]
            if vary != 0 and vary != 3:
                q0 = [q0[0]] * nk
            if vary == 0:
                b0, m0 = [b0[0]] * nk, [m0[0]] * nk
            if vary == 3:
                q0, b0, m0 = [q0[0]] * nk, [b0[0]] * nk, [m0[0]] * nk
            if type == "time-ordered":
                q0 = [x or 1 for x in q0]
            one = lambda v: float(v[0]) if len(set(v)) == 1 and r.random() < .7 else np.array(v, dtype=float)
            B, M, T = one([beta(b) for b in b0]), one(m0), one([q * np.pi / 2 for q in q0])
            K = np.array(ks, dtype=float) * 2 * np.pi / n
            if d == 1:
                K = K[:, 0]
                if nk == 1 and r.random() < .5:
                    K = float(K[0])
            elif nk == 1 and r.random() < .5:
                K = K[0]
            keep = np.array(K)
            P = [[b, 2 * energy(n, d, kk) - 2 * m, q] for b, m, q, kk in zip(b0, m0, q0, ks)]
            kw = {} if d == 2 and r.random() < .5 else {"dim": "%dd" % d}
            rec.ev("kspace-%d" % k, "kspace", {"p": P, "type": type}, lambda: fg.fg_kspace_gfns(B, M, K, T, type, **kw),
                   lambda o, q: {"g": [q.cnear(x, U) for x in np.ravel(o[0])], "d": [q.cnear(x, U) for x in np.ravel(o[1])],
                                 "pure": same(K, keep)})
        return go
    for k in range(800 if big else 160):
        jobs.append(kspace(k, rng.randrange(10 ** 9)))

    def place(r, n, d):
        return [r.randint(1 - n, n - 1), r.randint(1 - n, n - 1) if d == 2 else 0] if r.random() < .85 else [0, 0]

    def real(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 6]), r.choice([1, 2])
            type = r.choice(TYPES)
            q = r.choice([0, 0, 1, -1, 2, 3, -2, 4])
            if type == "time-ordered":
                q = q or 1
            bs, ms, pat = spread(r, inf=.1 if q == 0 else 0, even=q != 0)
            rr = place(r, n, d)
            B, M = args(r, bs, ms, pat)
            keep = np.array(B), np.array(M)
            rec.ev("real-%d" % k, "real", {"n": n, "d": d, "r": rr, "b": bs, "mu": ms, "q": q, "type": type},
                   lambda: fg.fg_realspace_gfn(B, M, tuple(rr), q * np.pi / 2, nsites=n, dim="%dd" % d, type=type),
                   lambda o, q: {"g": [q.cnear(x, U) for x in np.ravel(o[0])], "d": [q.cnear(x, U) for x in np.ravel(o[1])] if -1 not in bs else [],
                                 "pure": same(B, keep[0]) and same(M, keep[1])})
        return go
    for k in range(800 if big else 160):
        jobs.append(real(k, rng.randrange(10 ** 9)))

    ONE = ["density", "compressibility", "corr"]
    TWO = ["singles", "singles_corr", "doubles", "doubles_corr", "sz_corr", "sx_corr"]

    def observable(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 6]), r.choice([1, 2])
            what = r.choice(ONE + TWO)
            bs, ms, pat = spread(r, inf=0 if what == "compressibility" else .15)
            md = []
            if what in TWO:
                md = [r.choice([-9, -7, -3, -1, 3, 5]) if b == -1 else (2 * r.randint(-5, 5)) for b in bs]
                if pat == 2 and -1 not in bs:
                    md = [md[0]] * len(md)
            rr = place(r, n, d)
            B, M = args(r, bs, ms, pat)
            a = [B, M]
            if what in TWO:
                a.append(np.array(md, dtype=float).reshape(np.shape(M) if np.size(M) == len(md) else (len(md),)) / 2)
                if len(md) == 1:
                    a[2] = float(np.ravel(a[2])[0])
                if np.ndim(a[1]) != np.ndim(a[2]) and np.size(a[1]) == len(md):
                    a[1] = np.array(ms, dtype=float).reshape(np.shape(a[2])) / 2
            keep = [np.array(x) for x in a]
            kw = {"nsites": n, "dim": "%dd" % d}
            if "corr" in what:
                kw["corr_index"] = tuple(rr)
            rec.ev("%s-%d" % (what, k), "observable", {"what": what, "n": n, "d": d, "r": rr, "b": bs, "mu": ms, "md": md},
                   lambda: getattr(fg, "fg_" + what)(*a, **kw),
                   lambda o, q: {"v": q.nvec(o, U), "pure": all(same(x, y) for x, y in zip(a, keep))})
        return go
    for k in range(2000 if big else 360):
        jobs.append(observable(k, rng.randrange(10 ** 9)))

    def occ(b, x2):
        return 1 / (2. ** (b * x2 / 2) + 1)

    def chem(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 6]), r.choice([1, 2])
            bs, ms, pat = spread(r, inf=0)
            bs = [b or 2 for b in bs]
            ms = [m if m * b % 2 == 0 else m + 1 for b, m in zip(bs, ms)]
            kk = [(a, c) for a in range(n) for c in range(n if d == 2 else 1)]
            ns = [sum(occ(b, 2 * energy(n, d, x) - m) for x in kk) / len(kk) for b, m in zip(bs, ms)]
            B = np.array([beta(b) for b in bs])
            D = np.array(ns)
            if len(bs) == 1:
                B, D = (float(B[0]), float(D[0])) if r.random() < .6 else (B, D)
            elif len(set(bs)) == 1:
                B = r.choice([B, B[:1], float(B[0])])
            keep = np.array(B), np.array(D)
            kw = {"nsites": n, "dim": "%dd" % d}

            def call():
                m = np.ravel(fg.fg_mu(B, D, **kw))
                return m, np.ravel(fg.fg_density(np.array([beta(b) for b in bs]), m, **kw))
            rec.ev("mu-%d" % k, "mu", {"n": n, "d": d, "b": bs, "mu": ms}, call,
                   lambda o, q: {"m": q.nvec(o[0], U), "n": q.nvec(o[1], U), "pure": same(B, keep[0]) and same(D, keep[1])})
        return go
    for k in range(500 if big else 100):
        jobs.append(chem(k, rng.randrange(10 ** 9)))

    def fill(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 5, 6, 7, 9]), r.choice([1, 2])
            m = r.choice([1, 1, 2, 3])
            B = np.array([r.choice([.05, .3, 1., 2.5, 5.]) for _ in range(m)])
            D = [r.choice([4, 4, 1, 2, 3, 5, 6, 7]) for _ in range(m)]
            DD = np.array(D) / 8
            b, x = (float(B[0]), float(DD[0])) if m == 1 and r.random() < .6 else (B, DD)
            kw = {"nsites": n, "dim": "%dd" % d}
            rec.ev("fill-%d" % k, "fill", {"n8": D}, lambda: np.ravel(fg.fg_density(B, np.ravel(fg.fg_mu(b, x, **kw)), **kw)), lambda o, q: {"n": q.nvec(o, U)})
        return go
    for k in range(200 if big else 50):
        jobs.append(fill(k, rng.randrange(10 ** 9)))

    def response(k, seed):
        def go():
            r = random.Random(seed)
            n, d = r.choice([2, 3, 4, 6]), r.choice([1, 2])
            h2 = r.choice([0, 0, 1, 2, 3])
            w2 = r.choice([0, 1, -1, 2, 3, 5, -4]) if h2 else 0
            bs, ms, pat = spread(r, inf=.1 if h2 else 0)
            B, M = args(r, bs, ms, pat)
            kv = [r.randint(-n, n), r.randint(-n, n) if d == 2 else 0]
            if r.random() < .1:
                kv = [0, 0]
            kk = np.array(kv, dtype=float) * 2 * np.pi / n
            if d == 1:
                kk = r.choice([kk[:1], float(kk[0]), kk])
            fn = r.choice([fg.fg_density_response, fg.fg_magnetic_response])
            keep = np.array(B), np.array(M), np.array(kk)
            rec.ev("response-%d" % k, "response", {"n": n, "d": d, "k": [kv[0] % n, kv[1] % n], "b": bs, "mu": ms, "w2": w2, "h2": h2},
                   lambda: fn(B, M, kk, w2 / 2, h2 / 2, nsites=n, dim="%dd" % d),
                   lambda o, q: {"c": [[q.near(x, U), q.near(y, U)] for x, y in zip(np.ravel(o[0]), np.ravel(o[1]))],
                                 "pure": same(B, keep[0]) and same(M, keep[1]) and same(kk, keep[2])})
        return go
    for k in range(800 if big else 160):
        jobs.append(response(k, rng.randrange(10 ** 9)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
