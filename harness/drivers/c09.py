import itertools
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *


def gvec(rng, n, cplx=True, dens=.7):
    return np.array([(rng.randint(-3, 3) + (1j * rng.randint(-2, 2) if cplx else 0)) if rng.random() < dens else 0 for _ in range(n)],
                    dtype=complex if cplx else float)


def cl(v):
    """complex integer vector -> [[re, im], ...]"""
    v = v.toarray().ravel() if sp.issparse(v) else np.asarray(v).ravel()
    return [[int(round(complex(z).real)), int(round(complex(z).imag))] for z in v]


def rows_of(m):
    """integer matrix -> list of rows [[col, re, im], ...]"""
    m = sp.csr_matrix(m)
    m.eliminate_zeros()
    return [[[int(c), int(round(complex(v).real)), int(round(complex(v).imag))] for c, v in
             zip(m.indices[m.indptr[a]:m.indptr[a + 1]], m.data[m.indptr[a]:m.indptr[a + 1]])] for a in range(m.shape[0])]


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 30
    jobs = []

    def num(n, ns, N, form):
        def go():
            arg = [None if x < 0 else x for x in N]
            a = arg
            if form == 1 and all(x is not None for x in arg):
                a = np.array(arg)
            elif form == 2 and ns == 1 and arg[0] is not None:
                a = arg[0]
            elif form == 3 and all(x is not None for x in arg):
                a = tuple(arg)
            if form == 4 and all(x is None for x in arg):
                a = None
            rec.ev("number-%d-%d-%s-%d" % (n, ns, "_".join(map(str, N)), form), "number",
                   {"S": system("fermion", n, ns), "ns": list(N)},
                   lambda: fermions(chain(n), 0, 1, ns=a, nspecies=ns).n_projector, lambda r, q: {"m": q.smat(r)})
        return go

    lim = 8 if big else 6
    for n in range(1, lim + 1):
        for ns in (1, 2, 3, 4):
            if n * ns > (8 if ns == 4 else lim):
                continue
            opts = list(itertools.product(range(-1, n + 1), repeat=ns))
            if len(opts) > (200 if big else 36):
                opts = rng.sample(opts, 200 if big else 36)
            for N in opts:
                jobs.append(num(n, ns, N, rng.randrange(5)))
            jobs.append(num(n, ns, (n + 1,) + (0,) * (ns - 1), 0))

    def fam(n, ns):
        def go():
            combos = list(itertools.product(range(n + 1), repeat=ns))
            rec.ev("family-%d-%d" % (n, ns), "family", {"S": system("fermion", n, ns)},
                   lambda: [fermions(chain(n), 0, 1, ns=list(c), nspecies=ns).n_projector.shape[0] for c in combos],
                   lambda r, q: {"sizes": [{"ns": list(c), "d": int(d)} for c, d in zip(combos, r)]})
        return go
    for n, ns in ((1, 1), (2, 1), (5, 1), (8, 1), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (2, 4), (1, 4), (10, 1), (5, 2)):
        jobs.append(fam(n, ns))

    def sub(k, diag, ev, off, sc=2):
        def go():
            n = len(diag)
            m = sp.lil_matrix((n, n))
            for i, d in enumerate(diag):
                m[i, i] = d / sc
            if off:
                m = m.astype(complex)
            a = None if ev is None else ([x / sc for x in ev] if k % 2 else np.array(ev) / sc)
            if ev is not None and len(ev) == 1 and k % 3 == 0:
                a = ev[0] / sc
            M = model("spin", 1)
            rec.ev("sub-%d" % k, "sub", {"diag": list(diag), "given": ev is not None, "ev": ev or []},
                   lambda: M.get_subspace_projs(m.tocsr(), **({} if a is None else {"eig_vals": a}), print_results=bool(k % 4 == 0)),
                   lambda r, q: {"ps": [q.smat(p) for p in r[0]], "ev": q.vec(r[1], sc)})
        return go
    for k in range(200 if big else 60):
        n = rng.randint(1, 16)
        diag = [rng.randint(-3, 3) for _ in range(n)]
        ev = None if k % 3 == 0 else [rng.randint(-4, 4) for _ in range(rng.randint(1, 4))]
        jobs.append(sub(k, diag, ev, k % 5 == 0))

    # eigenvalues a millionth apart are different eigenvalues
    for k in range(1000, 1060 if big else 1018):
        n = rng.randint(2, 12)
        val = lambda: rng.randint(-1, 2) * 2 ** 22 + rng.randint(-2, 2)
        diag = [val() for _ in range(n)]
        ev = None if k % 2 else rng.sample(diag, min(n, 3)) + [val()]
        jobs.append(sub(k, diag, ev, k % 5 == 0, 2 ** 22))

    # eigenspaces of physical diagonal operators
    def phys(k, n):
        def go():
            M = model("spin", n)
            S = system("spin", n)
            D = 2 ** n
            r = np.random.RandomState(k)
            a = r.randint(0, 2, n * (n - 1) // 2)
            a[0] = 1
            op = M.get_npairs_op(a)
            diag = [int(round(x)) for x in op.diagonal().real]
            rec.ev("pairs-%d" % k, "sub", {"diag": diag, "given": False, "ev": []}, lambda: M.get_subspace_projs(op.tocsr()),
                   lambda r_, q: {"ps": [q.smat(p) for p in r_[0]], "ev": q.vec(r_[1], 1)})
        return go
    for k in range(12 if big else 6):
        jobs.append(phys(k, 2 + k % 4))

    def ovl(k, d, nst, nproj, form):
        def go():
            r = rng2(k)
            psi = [gvec(r, d) for _ in range(nst)]
            if form == 2:
                psi = [np.asarray(p.real) for p in psi]
            Ps = []
            for _ in range(nproj):
                m = np.array([gvec(r, d, dens=.4) for _ in range(r.randint(1, d))])
                Ps.append(sp.csr_matrix(m) if r.random() < .7 else sp.csc_matrix(m))
            st = np.array(psi).T
            if form == 1 and nst == 1:
                st = psi[0]
            if form == 3:
                st = sp.csr_matrix(st) if k % 2 else sp.csc_matrix(st)
            arg = Ps if nproj > 1 or k % 2 else Ps[0]
            keep = st.copy()
            M = model("spin", 1)
            rec.ev("overlap-%d" % k, "overlap", {"ps": [rows_of(p) for p in Ps], "psi": [cl(p) for p in psi]},
                   lambda: M.get_subspace_overlaps(st, arg, print_results=True) if k % 5 == 0 else M.get_subspace_overlaps(st, arg),
                   lambda res, q: {"w": q.vec(res), "pure": bool((abs(st - keep)).sum() == 0)})
        return go
    for k in range(160 if big else 48):
        jobs.append(ovl(k, rng.randint(1, 9), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3]), k % 4))

    def large(k, n, ns, N):
        # particle numbers of the selected states only, for systems with thousands of states
        def go():
            def enc(r, q):
                r = sp.csr_matrix(r)
                return {"nr": int(r.shape[0]), "nc": int(r.shape[1]), "pick": sorted(rng2(k).sample(q.smat(r)["e"], min(30, r.shape[0])))}
            rec.ev("large-%d" % k, "large", {"S": system("fermion", n, ns), "ns": list(N)},
                   lambda: fermions(chain(n), 0, 1, ns=list(N), nspecies=ns).n_projector, enc)
        return go
    for k, (n, ns, N) in enumerate([(12, 1, (6,)), (12, 1, (12,)), (6, 2, (3, 2)), (6, 2, (0, 6)), (4, 3, (2, 1, 3)), (3, 4, (1, 2, 0, 3)),
                                    (11, 1, (1,)), (5, 2, (5, 5)), (2, 6, (1, 0, 2, 1, 1, 1))]):
        jobs.append(large(k, n, ns, N))

    for j in share(jobs, part, nparts):
        j()


def rng2(k):
    import random
    return random.Random(7919 * k + 13)


if __name__ == "__main__":
    main(run)
