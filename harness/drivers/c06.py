import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 60
    jobs = []
    sysl = [("fermion", n, ns, 2) for n in range(1, 7) for ns in (1, 2, 3) if n * ns <= 6]
    sysl += [("spin", n, 1, b) for n in range(1, 6) for b in (2, 3, 4) if b ** n <= 64]
    sysl += [("boson", n, ns, b) for n in range(1, 4) for ns in (1, 2) for b in (2, 3, 4) if b ** (n * ns) <= 81]

    def local(kind, b, k):
        if kind == "fermion" and k % 2:
            return [fermions.cdag_op, fermions.c_op, fermions.n_op, np.eye(2), fermions.parity_op][(k // 2) % 5]
        m = rand_op(rng, b, cplx=k % 3 != 0)
        return m

    def arg(m, form):
        return m if form == 0 else sp.csr_matrix(m)

    def pure(ms, keep):
        return bool(all(np.array_equal(a.toarray() if sp.issparse(a) else a, b) for a, b in zip(ms, keep)))

    def single(k, sy, site, s_, op, fermi, form, w={}):
        def go():
            M = model(*sy)
            a = arg(op, form)
            keep = [np.array(op)]
            fmt = "fermion" if fermi else "boson"
            rec.ev("single-%s-%d-%d-%d-%d" % (*sy, k), "single",
                   dict(w, S=system(*sy), site=site, sp=s_, op=enc_op(op), fermi=fermi),
                   (lambda: M.get_single_site_op(site, s_, a, format=fmt)) if not (fermi and k % 3 == 0) else
                   (lambda: M.get_single_site_op(site, s_, a)),
                   lambda r, q: {"m": q.smat(r, cols=w.get("cols")), "pure": pure([a], keep)})
        return go

    def two(k, sy, p, op1, op2, fermi, form, w={}):
        def go():
            M = model(*sy)
            a, b = arg(op1, form), arg(op2, form)
            keep = [np.array(op1), np.array(op2)]
            fmt = "fermion" if fermi else "boson"
            rec.ev("two-%s-%d-%d-%d-%d" % (*sy, k), "two",
                   dict(w, S=system(*sy), s1=p[0], k1=p[1], s2=p[2], k2=p[3], op1=enc_op(op1), op2=enc_op(op2), fermi=fermi),
                   (lambda: M.get_two_site_op(p[0], p[1], p[2], p[3], a, b, format=fmt)) if not (fermi and k % 3 == 0) else
                   (lambda: M.get_two_site_op(p[0], p[1], p[2], p[3], a, b)),
                   lambda r, q: {"m": q.smat(r, cols=w.get("cols")), "pure": pure([a, b], keep)})
        return go

    for sy in sysl:
        kind, n, ns, b = sy
        k = 0
        for site in range(n):
            for s_ in range(ns):
                for rep in range(3 if big else 1):
                    for fermi in ((True, False) if b == 2 else (False,)):
                        jobs.append(single(k, sy, site, s_, local(kind, b, k), fermi, 0 if fermi else k % 2))
                        k += 1
        k = 0
        pairs = [(a, c, d, e) for a in range(n) for c in range(ns) for d in range(n) for e in range(ns)]
        if not big and len(pairs) > 18:
            pairs = rng.sample(pairs, 18)
        for p in pairs:
            fermi = b == 2 and (kind == "fermion" or k % 2 == 0)
            if kind == "fermion" and k % 5 == 4:
                fermi = False
            jobs.append(two(k, sy, p, local(kind, b, 2 * k + 1 if k % 2 else k), local(kind, b, 2 * k + 3 if k % 2 else k + 1),
                            fermi, 0 if fermi else k % 2))
            k += 1

    # larger systems, on a sample of the columns
    large = [("fermion", 4, 2, 2), ("fermion", 2, 4, 2), ("fermion", 5, 2, 2), ("fermion", 3, 4, 2), ("fermion", 12, 1, 2),
             ("spin", 10, 1, 2), ("spin", 6, 1, 3), ("boson", 2, 3, 3)]
    for sy in large:
        kind, n, ns, b = sy
        D = b ** (n * ns)
        for k in range(100, 140 if big else 112):
            w = {"cols": sorted(rng.sample(range(D), 16))}
            fermi = b == 2 and (kind == "fermion" and k % 6 != 5)
            if k % 3 == 0:
                site, s_ = (0, 0) if k == 102 else (rng.randrange(n), rng.randrange(ns))
                jobs.append(single(k, sy, site, s_, local(kind, b, k if k % 2 else k + 1), fermi, 0, w))
            else:
                p = (rng.randrange(n), rng.randrange(ns), rng.randrange(n), rng.randrange(ns))
                if k == 100:
                    p = (0, 0, n - 1, ns - 1)
                if k == 101:
                    p = (n - 1, ns - 1, 0, 0)
                jobs.append(two(k, sy, p, local(kind, b, 2 * k + 1), local(kind, b, 2 * k + 3), fermi, 0 if fermi else k % 2, w))

    def sumq(k, sy, s_, op, fermi, mode, win={}):
        kind, n, ns, b = sy

        def go():
            xs = [rng2.randint(-3, 3) for _ in range(n)]
            ys = [rng2.randint(-3, 3) for _ in range(n)]
            half = 2 if k % 2 else 1          # sites off the unit grid, momenta larger to match
            g = Geometry.createNonPeriodicGeometry([x / half for x in xs], [y / half for y in ys], np.zeros((n, n)))
            M = model(kind, n, ns, b, g)
            fmt = "fermion" if fermi else "boson"
            if mode == "sum":
                w = [0] * n
                if kind == "spin":
                    call = lambda: M.get_sum_op(op)
                else:
                    call = lambda: M.get_sum_op(op, s_, format=fmt, print_results=bool(k % 2))
            else:
                kx, ky = rng2.randint(-2, 2), rng2.randint(-2, 2)
                w = [(kx * x + ky * y) % 4 for x, y in zip(xs, ys)]
                qv = [half * kx * np.pi / 2, half * ky * np.pi / 2]
                if k % 3 == 0:
                    qv = np.array(qv)
                call = lambda: M.get_sum_op_q(s_, qv, op, format=fmt, print_results=bool(k % 2))
            keep = [np.array(op)]
            rec.ev("%s-%s-%d-%d-%d-%d" % (mode, *sy, k), "sum",
                   dict(win, S=system(*sy), sp=s_, op=enc_op(op), fermi=fermi, w=w), call,
                   lambda r, q: {"m": q.smat(r, cols=win.get("cols")), "pure": pure([op], keep)})
        import random
        rng2 = random.Random(k * 7919 + n)
        return go
    for sy in sysl:
        kind, n, ns, b = sy
        for k in range(4):
            fermi = b == 2 and kind != "spin" and k % 2 == 0
            jobs.append(sumq(k, sy, rng.randrange(ns), local(kind, b, k), fermi, "sum"))
            jobs.append(sumq(k, sy, rng.randrange(ns), local(kind, b, k + 1), b == 2 and k % 2 == 0, "sumq"))

    for sy in large + [("fermion", 2, 3, 2)]:
        kind, n, ns, b = sy
        for k in range(100, 104):
            win = {"cols": sorted(rng.sample(range(b ** (n * ns)), 16))}
            fermi = b == 2 and kind == "fermion" and k % 2 == 0
            jobs.append(sumq(k, sy, ns - 1 if k > 101 else rng.randrange(ns), local(kind, b, k), fermi, "sum" if k % 4 < 2 else "sumq", win))

    def allop(k, sy, op):
        def go():
            M = model(*sy)
            rec.ev("all-%s-%d-%d-%d-%d" % (*sy, k), "all", {"S": system(*sy), "op": enc_op(op)},
                   lambda: M.get_allsite_op(op), lambda r, q: {"m": q.smat(r), "pure": True})
        return go

    def npairs(k, n):
        order = [(c, r) for r in range(n) for c in range(n) if c > r]
        conn = [rng.randint(0, 1) for _ in order]

        def go():
            M = model("spin", n)
            links = [list(l) for l, c in zip(order, conn) if c]
            if not links:
                return
            rec.ev("pairs-%d-%d" % (n, k), "pairs", {"S": system("spin", n), "links": links},
                   lambda: M.get_npairs_op(np.array(conn)), lambda r, q: {"m": q.smat(r), "pure": True})
        return go

    def labels(sy, rows, k):
        def go():
            M = model(*sy)
            kind, n, ns, b = sy
            D = b ** (n * ns)
            if kind == "spin":
                call = lambda: (M.get_state_vects(print_results=bool(k % 2)), "")
            elif rows is None:
                call = lambda: M.get_state_vects(print_results=bool(k % 2))
            else:
                P = sp.csr_matrix((np.ones(len(rows)), (np.arange(len(rows)), rows)), shape=(len(rows), D))
                call = lambda: M.get_state_vects(projector=P)

            def enc(r, q):
                txt = [[int(t[:-1]), ord(t[-1]) - 97] for t in r[1].split()]
                return {"lab": q.mat(r[0]), "text": txt}
            rec.ev("labels-%s-%d-%d-%d-%d" % (*sy, k), "labels",
                   {"S": system(*sy), "rows": list(range(D)) if rows is None else rows}, call, enc)
        return go

    def parity(n):
        def go():
            M = model("spin", n)
            rec.ev("parity-%d" % n, "parity", {"S": system("spin", n)}, lambda: M.get_state_parity(),
                   lambda r, q: {"v": q.vec(r)})
        return go

    def special(n):
        def go():
            M = model("spin", n)
            sc = 2 ** n * n

            def enc(r, q):
                m = r[0].toarray()
                return {"cols": [[q.i(np.sign(x) * x * x, sc) for x in m[:, j]] for j in range(m.shape[1])], "desc": list(r[1])}
            rec.ev("special-%d" % n, "special", {"n": n}, lambda: M.find_special_states(n, 1), enc)
        return go
    for n in range(1, 7):
        jobs.append(parity(n))
        if n > 1:
            jobs.append(special(n))
            for k in range(3):
                jobs.append(npairs(k, n))
    for sy in sysl:
        if sy[0] == "spin":
            for k in range(2):
                jobs.append(allop(k, sy, rand_op(rng, sy[3], density=.5)))
        if sy[0] == "fermion" or (sy[0] == "spin" and sy[3] == 2):
            jobs.append(labels(sy, None, 0))
            jobs.append(labels(sy, None, 1))
        if sy[0] == "fermion":
            D = 2 ** (sy[1] * sy[2])
            jobs.append(labels(sy, sorted(rng.sample(range(D), rng.randint(1, D))), 2))

    def badfmt(k):
        def go():
            M = model("fermion", 3)
            f = ["bose", "", "Fermion", None][k // 2]
            rec.ev("format-%d" % k, "reject", {}, (lambda: M.get_single_site_op(1, 0, fermions.n_op, format=f)) if k % 2 else
                   (lambda: M.get_two_site_op(1, 0, 2, 0, fermions.n_op, fermions.n_op, format=f)))
        return go
    for k in range(8):
        jobs.append(badfmt(k))

    def index(x, n, k_):
        def go():
            M = model("fermion", 2)

            def call():
                p = M.spinful2spinlessIndex(x, n, k_)
                a = M.spinless2spinfullIndex(p, n)
                return p, a
            rec.ev("index-%d-%d-%d" % (x, n, k_), "index", {"x": x, "n": n, "k": k_}, call,
                   lambda r, q: {"p": q.i(r[0]), "x": q.i(r[1][0]), "k": q.i(r[1][1])})
        return go
    for n in range(1, 9):
        for x in range(n):
            for k_ in range(6):
                jobs.append(index(x, n, k_))

    def sq(q, m):
        m = np.asarray(m.toarray() if sp.issparse(m) else m).astype(complex) * 2
        return [[[q.i(np.sign(z.real) * z.real ** 2), q.i(np.sign(z.imag) * z.imag ** 2)] for z in row] for row in m]

    def spinm(tw):
        def go():
            def call():
                M = spinSystem(chain(1), spin=tw / 2 if tw % 2 or tw == 4 else tw // 2)
                return M
            rec.ev("spinmats-%d" % tw, "spinmats", {"tw": tw}, call,
                   lambda M, q: {"p": sq(q, M.splus), "m": sq(q, M.sminus), "x": sq(q, M.sx), "y": sq(q, M.sy), "z": sq(q, M.sz),
                                 "b": int(M.nbasis)})
        return go
    for tw in range(1, 9):
        jobs.append(spinm(tw))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
