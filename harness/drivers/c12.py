import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from drivers.c09 import gvec, cl


def crows(m):
    m = m.toarray() if sp.issparse(m) else np.asarray(m)
    return [[[int(round(complex(z).real)), int(round(complex(z).imag))] for z in r] for r in m]


def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def same(a, b):
    return bool(dense(a).shape == dense(b).shape and np.array_equal(dense(a), dense(b)))


def form(m, f):
    """dense columns -> one of the admissible containers"""
    if f == 1 and m.shape[1] == 1:
        return m[:, 0].copy()
    if f == 2:
        return sp.csr_matrix(m)
    if f == 3:
        return sp.csc_matrix(m)
    if f == 4:
        return np.asfortranarray(m)
    return m.copy()


def herm(r, d, cplx, kind):
    a = np.zeros((d, d), complex if cplx else float)
    for i in range(d):
        for j in range(i + 1):
            if kind == 1 and (i // 2) != (j // 2):
                continue
            if kind == 2 and i != j:
                continue
            z = r.randint(-3, 3) + (1j * r.randint(-3, 3) if cplx and i != j else 0)
            a[i, j] = z
            a[j, i] = np.conj(z)
    if kind == 3:
        a[:] = np.eye(d) * r.randint(-3, 3)
    if kind == 4:
        a[:] = 0
    return a


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 60
    jobs = []
    M = model("spin", 1)
    MF = model("fermion", 2, 2)

    def diag(k, seed):
        def go():
            r = random.Random(seed)
            d = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
            sparse = k % 4 == 3
            if sparse:
                d = r.randint(6, 14)
            if k % 24 == 0:
                d = r.randint(40, 60)
            h = herm(r, d, r.random() < .6 or k % 24 == 0, k % 7 if k % 7 < 5 and d < 40 else 0)
            if sparse:
                h = herm(r, d, r.random() < .6, 0) + np.diag(range(d))
            H = [sp.csr_matrix, sp.csc_matrix, sp.coo_matrix][r.randrange(3)](h)
            keep = H.copy()
            n = r.randint(1, d - 2) if sparse else d
            kw = {"use_sparse": True, "neigs": n} if sparse else {}
            mm = M if k % 2 else MF

            def enc(res, q):
                E, V = np.asarray(res[0]), np.asarray(res[1])
                g = V.conj().T @ V
                rs = h @ V - V * E[None, :]
                return {"e": q.nvec(E, 10 ** 6), "nr": V.shape[0], "nc": V.shape[1],
                        "g": [[q.cnear(z, 10 ** 6) for z in x] for x in g], "res": [[q.cnear(z, 10 ** 6) for z in x] for x in rs],
                        "pure": same(H, keep)}
            rec.ev("diag-%d" % k, "diag", {"h": crows(h), "k": n}, lambda: mm.diagH(H, print_results=k % 5 == 0, **kw), enc)
        return go
    for k in range(160 if big else 48):
        jobs.append(diag(k, rng.randrange(10 ** 9)))

    def states(r, d, n, cplx=True):
        return np.array([gvec(r, d, cplx) for _ in range(n)]).T.reshape(d, n)

    def cols(m):
        return [cl(m[:, c]) for c in range(m.shape[1])]

    def simple(k, seed):
        def go():
            r = random.Random(seed)
            d, n = r.randint(1, 7), r.choice([1, 1, 2, 3, 5])
            m = states(r, d, n, r.random() < .8)
            a = form(m, k % 5)
            keep = a.copy()
            rec.ev("norms-%d" % k, "norms", {"psi": cols(m)}, lambda: M.get_norms(a, k % 2 == 0),
                   lambda res, q: {"w": q.vec(res), "pure": same(a, keep)})
            op = np.array([gvec(r, d, r.random() < .7, .6) for _ in range(d)])
            if r.random() < .5:
                op = op + op.conj().T
            O = sp.csr_matrix(op) if r.random() < .7 else sp.csc_matrix(op)
            if not sp.issparse(a) and r.random() < .2:
                O = op
            k2 = O.copy()
            rec.ev("exp-%d" % k, "exp", {"psi": cols(m), "op": crows(op)}, lambda: M.get_exp_vals(a, O, k % 2 == 1),
                   lambda res, q: {"w": q.vec(res), "pure": same(a, keep) and same(O, k2)})
            b0 = states(r, d, r.choice([1, 2, 4]), r.random() < .8)
            b = form(b0, r.randrange(5))
            k3 = b.copy()
            rec.ev("ovl-%d" % k, "ovl", {"a": cols(m), "b": cols(b0)}, lambda: M.get_overlaps(a, b, k % 3 == 0),
                   lambda res, q: {"w": q.cvec(res), "pure": same(a, keep) and same(b, k3)})
            a2 = form(m, [0, 4, 2][k % 3])
            k4 = a2.copy()
            rec.ev("melem-%d" % k, "melem", {"v": cols(m), "op": crows(op)}, lambda: M.get_matrix_elems(a2, sp.csr_matrix(op), k % 3 == 1),
                   lambda res, q: {"w": q.cvec(res), "pure": same(a2, k4)})
        return go
    for k in range(200 if big else 60):
        jobs.append(simple(k, rng.randrange(10 ** 9)))

    had = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]])
    four = np.array([[1, 1, 1, 1], [1, 1j, -1, -1j], [1, -1, 1, -1], [1, -1j, -1, 1j]])

    def evolve(k, seed):
        def go():
            r = random.Random(seed)
            base = r.choice([had, four, four.conj(), np.eye(3), np.eye(1), np.kron(np.eye(2), four), np.kron(had, four), np.eye(5)[[1, 2, 0, 4, 3]]])
            if base.shape[0] == 16 and r.random() < .6:
                base = four
            s = int(round(abs(base[:, 0] ** 2).sum()))
            d = base.shape[0]
            W = base[r.sample(range(d), d)] if r.random() < .5 else base
            n = d if r.random() < .6 else r.randint(1, d)
            W = W[:, r.sample(range(d), n)] * (1j ** r.randrange(4) if r.random() < .3 else 1)
            V = W / np.sqrt(s)
            E = [r.randint(-5, 5) for _ in range(n)]
            if k % 3:
                E.sort()
            S = r.choice([1, 1, 2, 3])
            psi = states(r, d, S, r.random() < .8)
            T = r.choice([1, 1, 2, 4, 7])
            m = [r.randint(-3, 9) for _ in range(T)]
            times = np.array(m) * np.pi / 2
            if T == 1 and k % 2:
                times = float(times[0])
                if m[0] == 0 and k % 4 == 1:
                    times = 0
            st = psi[:, 0].copy() if S == 1 and r.random() < .5 else psi.copy()
            if r.random() < .15:
                st = sp.csr_matrix(psi) if False else st
            keep, kV = st.copy(), V.copy()
            en = np.array(E, dtype=float) if r.random() < .7 else list(map(float, E))
            rec.ev("evolve-%d" % k, "evolve", {"w": crows(W), "e": E, "m": m, "psi": cols(psi), "s": s},
                   lambda: M.quench_time_evolve(st, V, en, times, print_results=k % 4 == 0),
                   lambda res, q: {"t": q.vec(np.asarray(res[0]) / (np.pi / 2)), "psi": q.cvec(res[1], s), "sh": list(np.shape(res[1])),
                                   "pure": same(st, keep) and same(V, kV)})
        return go
    for k in range(300 if big else 90):
        jobs.append(evolve(k, rng.randrange(10 ** 9)))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
