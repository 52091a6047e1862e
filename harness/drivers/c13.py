import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from drivers.c09 import gvec, cl
from drivers.c12 import crows, same, form

L2 = np.log(2)


def temp(k):
    return 0. if k == -1 else (np.inf if k == 0 else 1 / (k * L2))


UNITS = [1., 1., 1., 1., 2. ** -24, 2. ** -14, 2. ** 10]     # units of energy, and so of temperature


def temps_arg(ks, f, u=1.):
    ts = [temp(k) * u for k in ks]
    if len(ks) == 1:
        return [ts[0], np.array(ts[0]), np.array(ts), ts][f % 4]
    return [np.array(ts), ts, tuple(ts), np.array(ts)][f % 4]


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 80
    jobs = []
    M = model("spin", 1)

    def noisy(r, E, arr, u=1.):
        """energies equal up to rounding, as a diagonalisation gives them"""
        if u != 1:
            return np.array(E) * u
        if isinstance(arr, np.ndarray) and arr.dtype.kind == "f" and r.random() < .5:
            return np.sort(arr + np.array([r.choice([0, 0, 1, -1, 2, 3]) for _ in E]) * 2e-15)
        return arr

    def pick_ks(r, span, m, zero=True, many=None):
        n = many or r.choice([1, 1, 2, 3, 7])
        opts = [k for k in [0, 1, 2, 3, 4, 6, 9, 11, 22, 23] if k * max(span, 1) <= m] + ([-1] if zero else [])
        return [r.choice(opts) for _ in range(n)]

    def weights(k, seed):
        def go():
            r = random.Random(seed)
            n = r.randint(1, 7) if r.random() < .8 else r.randint(8, 40)
            off = r.random() < .6
            u = r.choice(UNITS)
            lo = r.choice([r.randint(-9, 9), 5000, -5000]) if off else r.choice([0, 0, -2, 1])
            m = 23 if off and k % 2 else 12
            E = sorted(lo + r.choice([0, 0, 1, 1, 2, 3, 5, 6] + ([11, 20, 22, 23] if m > 12 and k % 4 == 1 else [])) for _ in range(n))
            span = E[-1] - E[0] if off else max(abs(x) for x in E)
            ks = pick_ks(r, span, m, off or min(E) >= 0)
            en = np.array(E, dtype=float) if r.random() < .7 else (list(E) if r.random() < .5 else np.array(E))
            u = u if abs(lo) < 100 else 1.
            en = noisy(r, E, en, u) if abs(lo) < 100 else np.array(E, dtype=float)
            keep = np.array(en)
            a = temps_arg(ks, r.randrange(4), u)

            def enc(res, q):
                w, z = res
                w = np.asarray(w)
                w = w.reshape(n, 1) if len(ks) == 1 else w
                return {"w": [q.vec(w[:, t], 2 ** m) for t in range(len(ks))] if w.shape == (n, len(ks)) else [],
                        "z": q.vec(z, 2 ** m), "pure": same(en, keep)}
            rec.ev("weights-%d" % k, "weights", {"e": E, "ks": ks, "off": off, "m": m},
                   lambda: M.get_thermal_weights(en, a, use_energies_offset=off) if off or k % 2 else M.get_thermal_weights(en, a), enc)
        return go
    for k in range(400 if big else 120):
        jobs.append(weights(k, rng.randrange(10 ** 9)))

    def thermal(k, seed):
        def go():
            r = random.Random(seed)
            d = r.randint(1, 5)
            n = r.randint(1, 5) if r.random() < .8 else r.randint(6, 20)
            V = np.array([[r.randint(-2, 2) + 1j * r.randint(-1, 1) for _ in range(n)] for _ in range(d)])
            if r.random() < .3:
                V = V.real.copy()
            op = np.array([gvec(r, d, r.random() < .6, .6) for _ in range(d)])
            op = (op + op.conj().T)
            u = r.choice(UNITS)
            lo = r.choice([r.randint(-9, 9), r.randint(-9, 9), 3000, -3000]) if u == 1 else r.randint(-9, 9)
            E = sorted([lo] + [lo + r.choice([0, 0, 1, 2, 3, 4]) for _ in range(n - 1)])
            ks = pick_ks(r, E[-1] - E[0], 6)
            a = temps_arg(ks, r.randrange(4), u)
            O = [sp.csr_matrix, sp.csc_matrix, sp.csr_matrix][r.randrange(3)](op)
            en = noisy(r, E, np.array(E, dtype=float), u) if abs(lo) < 100 else np.array(E, dtype=float)
            kV, kE = V.copy(), en.copy()
            rec.ev("thermal-%d" % k, "thermal", {"v": [cl(V[:, c]) for c in range(n)], "op": crows(op), "e": E, "ks": ks, "m": 6},
                   lambda: M.get_exp_vals_thermal(V, O, en, a, print_results=k % 4 == 0),
                   lambda res, q: {"r": q.nvec(res, 10000), "pure": same(V, kV) and same(en, kE) and same(O, op)})
        return go
    for k in range(400 if big else 120):
        jobs.append(thermal(k, rng.randrange(10 ** 9)))

    def secs(r, m, wide=()):
        ns = r.randint(1, 4) if r.random() < .8 else r.randint(5, 12)
        lo = r.randint(-7, 7)
        es = [sorted(lo + r.choice([0, 1, 2, 2, 3, 5] + list(wide)) for _ in range(r.randint(1, 4))) for _ in range(ns)]
        if r.random() < .4:
            es[0] = sorted(es[0] + [es[0][0]])
        allE = sum(es, [])
        return es, pick_ks(r, max(allE) - min(allE), m)

    def sectors(k, seed):
        def go():
            r = random.Random(seed)
            m = 23 if k % 2 else 12
            es, ks = secs(r, m, [10, 17, 23] if k % 4 == 1 else ())
            u = r.choice(UNITS)
            arg = [noisy(r, x, np.array(x, dtype=float), u) for x in es]
            keep = [x.copy() for x in arg]
            a = temps_arg(ks, r.randrange(4), u)

            def enc(res, q):
                z = np.asarray(res).reshape(len(ks), len(es))
                return {"z": [q.vec(z[t], 2 ** m) for t in range(len(ks))], "pure": all(same(x, y) for x, y in zip(arg, keep))}
            rec.ev("sectors-%d" % k, "sectors", {"es": es, "ks": ks, "m": m}, lambda: M.get_partition_fn_sectors(arg, a), enc)
        return go
    for k in range(300 if big else 90):
        jobs.append(sectors(k, rng.randrange(10 ** 9)))

    def combine(k, seed):
        def go():
            r = random.Random(seed)
            es, ks = secs(r, 6)
            lo = min(sum(es, []))
            extra = r.choice([(), (2,), (3,), (2, 2)]) if len(ks) > 1 else r.choice([(), (1,), (3,), (2, 2)])
            nc = int(np.prod(extra)) if extra else 1
            x = np.array([[[r.randint(-20, 20) for _ in range(nc)] for _ in ks] for _ in es], dtype=float)
            X = x.copy()
            for a_ in range(len(es)):
                for t in range(len(ks)):
                    if ks[t] == -1 and es[a_][0] > lo and r.random() < .7:
                        X[a_, t, :] = np.nan      # a sector without ground states has no average
            shape = (len(es), len(ks)) + extra if len(ks) > 1 else (len(es),) + extra
            X = X.reshape(shape)
            u = r.choice(UNITS)
            arg = [noisy(r, v, np.array(v, dtype=float), u) for v in es]
            a = temps_arg(ks, r.randrange(4), u)
            keep = X.copy()

            def enc(res, q):
                y = np.asarray(res).reshape(len(ks), nc)
                return {"r": [q.nvec(y[t], 10000) for t in range(len(ks))], "pure": bool(np.array_equal(X, keep, equal_nan=True))}
            rec.ev("combine-%d" % k, "combine", {"es": es, "ks": ks, "m": 6, "nc": nc, "x": [[[int(v) for v in y] for y in z] for z in x]},
                   lambda: M.thermal_avg_combine_sectors(X, arg, a), enc)
        return go
    for k in range(400 if big else 120):
        jobs.append(combine(k, rng.randrange(10 ** 9)))

    four = np.array([[1, 1, 1, 1], [1, 1j, -1, -1j], [1, -1, 1, -1], [1, -1j, -1, 1j]]) / 2

    def trace(k, seed):
        def go():
            r = random.Random(seed)
            V = r.choice([four, np.eye(3), np.eye(1), np.kron(np.eye(2), four), four.conj()])
            E = [r.randint(-2, 4) for _ in range(V.shape[0])]
            kk = r.randint(0, 3)
            h = (V * np.array(E)[None, :]) @ V.conj().T
            H = [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][r.randrange(3)](h)
            keep = H.copy()
            rec.ev("trace-%d" % k, "trace", {"e": E, "k": kk, "m": 12}, lambda: M.get_partition_fn_hamiltonian(H, kk * L2),
                   lambda res, q: {"z": q.i(res, 2 ** 12, 1e-5), "pure": same(H, keep)})
        return go
    for k in range(80 if big else 30):
        jobs.append(trace(k, rng.randrange(10 ** 9)))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
