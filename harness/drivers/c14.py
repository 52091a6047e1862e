import random
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from drivers.c09 import gvec, cl, rows_of
from drivers.c12 import same, form
from drivers.c13 import temps_arg


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 25
    jobs = []
    sysl = [("fermion", n, ns, 2) for n in range(1, 5) for ns in (1, 2, 3) if n * ns <= 4]
    sysl += [("spin", n, 1, b) for n in range(1, 5) for b in (2, 3) if b ** n <= 27] + [("boson", 2, 1, 3), ("boson", 1, 2, 3)]
    if big:
        sysl += [("fermion", 5, 1, 2), ("fermion", 3, 2, 2), ("fermion", 2, 3, 2), ("spin", 5, 1, 2)]

    def job(k, seed):
        def go():
            r = random.Random(seed)
            sy = r.choice(sysl)
            kind, n, ns, b = sy
            M = model(*sy)
            D = b ** (n * ns)
            S = system(*sy)
            pk = r.randrange(4)
            if pk == 0:
                P = None
                d = D
            elif pk == 1:        # select basis states
                d = r.randint(1, D)
                P = sp.csr_matrix(np.eye(D)[sorted(r.sample(range(D), d))])
            elif pk == 2 and kind == "fermion":
                f = fermions(chain(n), 0, 1, ns=[r.randint(0, n) for _ in range(ns)], nspecies=ns)
                P = f.n_projector
                M = f
                d = P.shape[0]
            else:                # arbitrary integer combinations
                d = r.randint(1, 4)
                P = sp.csr_matrix(np.array([gvec(r, D, r.random() < .6, .3) for _ in range(d)]))
                P.data = np.clip(P.data.real, -1, 1) + (1j * np.clip(P.data.imag, -1, 1) if np.iscomplexobj(P.data) else 0)
            op = r.choice(["site", "pair", "tsite", "tpair"])
            nst = r.choice([1, 1, 2, 3])
            cplx = r.random() < .7
            psi = np.array([gvec(r, d, cplx, .5) for _ in range(nst)]).T.reshape(d, nst)
            psi = np.clip(psi.real, -2, 2) + (1j * np.clip(psi.imag, -1, 1) if cplx else 0)
            lim = 2
            op1 = rand_op(r, b, r.random() < .5)
            op2 = rand_op(r, b, r.random() < .5)
            if kind == "fermion" and r.random() < .6:
                op1, op2 = r.choice([(M.n_op, M.n_op), (M.cdag_op, M.c_op), (M.c_op, M.cdag_op), (M.cdag_op, M.cdag_op)])
            fmt = r.choice(["fermion", "boson"]) if kind == "fermion" else "boson"
            k1, k2 = r.randrange(ns), r.randrange(ns)
            given = r.random() < .5
            ln = r.randint(1, 4)
            s1 = [r.randrange(n) for _ in range(ln)]
            s2 = [r.randrange(n) for _ in range(ln)]
            c1, c2 = (np.array(s1), np.array(s2)) if r.random() < .5 else (list(s1), list(s2))
            inp = {"S": S, "proj": P is not None, "p": [] if P is None else rows_of(P), "psi": [cl(psi[:, c]) for c in range(nst)],
                   "op1": enc_op(op1), "op2": enc_op(op2), "k1": k1, "k2": k2, "fermi": fmt == "fermion", "given": given,
                   "s1": s1, "s2": s2}
            kw = {"format": fmt} if fmt == "boson" or r.random() < .5 else {}
            if P is not None:
                kw["projector"] = P
            st = form(psi, r.choice([0, 0, 1, 4]))
            keep = st.copy()
            ks = []
            if op[0] == "t":
                E = sorted([0] + [r.choice([0, 0, 1, 2, 3]) for _ in range(nst - 1)])
                lo = r.randint(-5, 5)
                E = [x + lo for x in E]
                span = E[-1] - E[0]
                ks = [r.choice([q for q in range(0, 4) if q * max(span, 1) <= 6] + [-1]) for _ in range(r.choice([1, 1, 2, 3]))]
                inp.update({"e": E, "ks": ks, "m": 6})
                st = psi.copy()
                keep = st.copy()
                kw["print_results"] = bool(k % 5 == 0)
                ta = temps_arg(ks, r.randrange(4))
                en = np.array(E, dtype=float)
            if given:
                kw["sites" if op.endswith("site") else "sites1"] = c1
                if not op.endswith("site"):
                    kw["sites2"] = c2

            def pure():
                return same(st, keep) and (not given or (list(c1) == s1 and list(c2) == s2))

            def enc(res, q):
                v = np.asarray(res[0])
                o = {"s1": [int(x) for x in res[1]], "s2": [int(x) for x in res[2]] if op.endswith("pair") else [], "pure": pure()}
                if op[0] == "t":
                    o["v"] = [q.nvec(x, 10000) for x in v.reshape(len(o["s1"]), -1)]
                else:
                    o["v"] = [q.vec(x) for x in v.reshape(len(o["s1"]), -1)]
                return o
            calls = {"site": lambda: M.get_exp_vals_sites(st, op1, k1, **kw),
                     "pair": lambda: M.get_corr_sites(st, k1, k2, op1, op2, **kw),
                     "tsite": lambda: M.get_thermal_exp_sites(st, en, op1, k1, ta, **kw),
                     "tpair": lambda: M.get_thermal_corr_sites(st, en, k1, k2, op1, op2, ta, **kw)}
            rec.ev("%s-%s%d%d%d-%d" % (op, kind, n, ns, b, k), op, inp, calls[op], enc)
        return go
    for k in range(1200 if big else 320):
        jobs.append(job(k, rng.randrange(10 ** 9)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
