import itertools
import numpy as np
import scipy.sparse as sp
from core import main, share
from manybody import *
from symlib import *

K = 1000000


def enc_projs(q, ps, d):
    g = [q.cols(p.conj().transpose() * p if p.shape[0] else sp.csc_matrix((d, d)), K) for p in ps]
    h = [q.cols(p * p.conj().transpose(), K) if p.shape[0] else {"d": 0, "c": []} for p in ps]
    return {"g": g, "h": h}


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    rec.max_events = 14
    jobs = []
    maxd = 130 if big else 40

    def case(id, mk, dims_cap=None):
        """mk() -> (kind, dict of ops, params)"""
        jobs.append((id, mk))

    # ------------------------------------------------ families of real representations
    def models(geom):
        n = geom.nsites
        out = []
        for k in range(0, n + 1):
            out.append(("f1-%d" % k, lambda k=k: fermions(geom, 0, 1, ns=[k], nspecies=1)))
        for a in range(0, n + 1):
            for b in range(0, min(a, 2) + 1):
                out.append(("f2-%d%d" % (a, b), lambda a=a, b=b: fermions(geom, 0, 1, ns=[a, b], nspecies=2) if n <= 5 else None))
        if n <= (7 if big else 5):
            out.append(("spin", lambda: spinSystem(geom)))
        if n <= 3:
            out.append(("spin1", lambda: spinSystem(geom, spin=1)))
            out.append(("f3", lambda: fermions(geom, 0, 1, nspecies=3) if n <= 2 else None))
        return out

    def dimof(n, tag):
        from math import comb
        if tag.startswith("f1-"):
            return comb(n, int(tag[3:]))
        if tag.startswith("f2-"):
            return comb(n, int(tag[3])) * comb(n, int(tag[4]))
        return {"spin": 2 ** n, "spin1": 3 ** n, "f3": 8 ** n}[tag]

    def rep(geom, tag, mk, fns):
        """symmetry operators restricted to the number sector"""
        m = mk()
        P = m.n_projector if hasattr(m, "n_projector") else sp.eye(m.nstates, format="csr")
        ops, orders = [], []
        for f in fns:
            o, n = op_of(m, geom, f)
            ops.append(restrict(P, o))
            orders.append(n)
        return ops, orders

    def add(kind, id, geom, fns, call, inp, variants=True):
        n = geom.nsites
        for tag, mk in models(geom):
            if dimof(n, tag) > maxd or mk() is None:
                continue
            for v in rng.choice(((0,), (0, 1), (2,), (0, 2))) if variants else (0,):
                def go(tag=tag, mk=mk, v=v, seed=rng.randrange(10 ** 9)):
                    import random
                    ops, orders = rep(geom, tag, mk, fns)
                    if v:
                        ops = scramble(random.Random(seed), ops, v == 2)
                    us = [signed_perm(o) for o in ops]
                    if any(u is None for u in us) or not us[0]:
                        return
                    call("%s-%s-%d" % (id, tag, v), ops, us, orders, seed)
                jobs.append(go)

    # cyclic groups
    def zn(n):
        def call(id, ops, us, orders, seed):
            rec.ev("zn-" + id, "zn", {"n": n, "u": us[0]},
                   lambda: symm.getZnProjectors(ops[0], n, print_results=bool(seed % 3 == 0)),
                   lambda r, q: dict(enc_projs(q, r[0], ops[0].shape[0]), ks=q.vec(np.asarray(r[1]) * n / (2 * np.pi))))
        return call
    for n in range(2, (8 if big else 7)):
        g = Geometry.createSquareGeometry(n, 1, bc1_open=False)
        add("zn", "chain%d" % n, g, [symm.getTranslFn(np.array([1, 0]))], zn(n), {})
        if n >= 3:
            gp = Geometry.createRegularPolygonGeometry(n)
            add("zn", "poly%d" % n, gp, [symm.getRotFn(n)], zn(n), {})
    for n in (2, 4, 6):
        g = Geometry.createSquareGeometry(n, 1, bc1_open=False)
        if n > 2:
            add("zn", "step2-%d" % n, g, [symm.getTranslFn(np.array([2, 0]))], zn(n // 2), {})
    g = Geometry.createSquareGeometry(2, 2)
    add("zn", "sq22", g, [symm.getRotFn(4, .5, .5)], zn(4), {})
    add("zn", "inv22", g, [symm.getInversionFn(.5, .5)], zn(2), {})
    g33 = Geometry.createSquareGeometry(3, 3)
    add("zn", "sq33", g33, [symm.getRotFn(4, 1, 1)], zn(4), {})
    # trivial group
    g1 = Geometry.createSquareGeometry(3, 1)
    add("zn", "one", g1, [symm.getTranslFn(np.array([0, 0]))], zn(1), {})

    # two commuting translations
    def t2(n1, n2):
        def call(id, ops, us, orders, seed):
            rec.ev("t2-" + id, "t2", {"n1": n1, "u1": us[0], "n2": n2, "u2": us[1]},
                   lambda: symm.get2DTranslationProjectors(ops[0], n1, ops[1], n2, bool(seed % 2)),
                   lambda r, q: dict(enc_projs(q, r[0], ops[0].shape[0]), k1=q.vec(np.asarray(r[1]) * n1 / (2 * np.pi)),
                                     k2=q.vec(np.asarray(r[2]) * n2 / (2 * np.pi))))
        return call
    for a, b in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)):
        g = Geometry.createSquareGeometry(a, b, bc1_open=False, bc2_open=False)
        add("t2", "sq%d%d" % (a, b), g, [symm.getTranslFn(np.array([1, 0])), symm.getTranslFn(np.array([0, 1]))], t2(a, b), {})

    # dihedral groups
    DN = {2: "getD2Projectors", 3: "getD3Projectors", 4: "getD4Projectors", 5: "getD5Projectors", 6: "getD6Projectors", 7: "getD7Projectors"}

    def dn(n):
        def call(id, ops, us, orders, seed):
            f = getattr(symm, DN[n])
            rec.ev("d%d-%s" % (n, id), "dn", {"n": n, "r": us[0], "s": us[1]},
                   lambda: f(ops[0], ops[1], print_results=bool(seed % 2)), lambda r, q: enc_projs(q, r, ops[0].shape[0]))
        return call
    for n in range(3, 8):
        gp = Geometry.createRegularPolygonGeometry(n)
        add("dn", "poly%d" % n, gp, [symm.getRotFn(n), symm.getReflFn(np.array([0, 1]))], dn(n), {})
        if n % 2 == 0:
            gc = Geometry.createSquareGeometry(n, 1, bc1_open=False)
            add("dn", "ring%d" % n, gc, [symm.getTranslFn(np.array([1, 0])), symm.getReflFn(np.array([0, 1]), 0, 0)], dn(n), {})
    for a, b in ((2, 1), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3)):
        g = Geometry.createSquareGeometry(a, b)
        c = ((a - 1) / 2, (b - 1) / 2)
        add("dn", "rect%d%d" % (a, b), g, [symm.getRotFn(2, *c), symm.getReflFn(np.array([0, 1]), *c)], dn(2), {})
        add("dn", "rectx%d%d" % (a, b), g, [symm.getInversionFn(*c), symm.getReflFn(np.array([1, 0]), *c)], dn(2), {})
        if a == b:
            add("dn", "sq%d" % a, g, [symm.getRotFn(4, *c), symm.getReflFn(np.array([0, 1]), *c)], dn(4), {})
            add("dn", "sqd%d" % a, g, [symm.getRotFn(4, *c), symm.getReflFn(np.array([1, 1]), *c)], dn(4), {})
    gt = Geometry.createTriangleGeometry(2, 2)

    # synthetic permutation representations (regular and coset actions) with signs
    def dperm(n, k, seed):
        def go():
            import random
            r = random.Random(seed)
            blocks_r, blocks_s = [], []
            for _ in range(r.randint(1, 3)):
                kind = r.randrange(6)
                if kind == 0:      # regular
                    R = np.zeros((2 * n, 2 * n)); Sg = np.zeros((2 * n, 2 * n))
                    for a in range(n):
                        for b in (0, 1):
                            R[((a + 1) % n) + n * b, a + n * b] = 1
                            Sg[((-a) % n) + n * (1 - b), a + n * b] = 1
                elif kind == 1:    # vertices
                    R = np.roll(np.eye(n), 1, axis=0); Sg = np.eye(n)[[(-i) % n for i in range(n)]]
                elif kind == 2:    # vertices times sign of the reflection
                    R = np.roll(np.eye(n), 1, axis=0); Sg = -np.eye(n)[[(-i) % n for i in range(n)]]
                elif kind == 3:    # one dimensional
                    R = np.array([[r.choice([1., -1.]) if n % 2 == 0 else 1.]]); Sg = np.array([[r.choice([1., -1.])]])
                elif kind == 4 and n % 4 == 0 or kind == 5 and n == 4:    # opposite circulations
                    R = np.diag([1j, -1j]); Sg = np.array([[0., 1.], [1., 0.]])
                else:
                    R = np.eye(1); Sg = np.eye(1)
                blocks_r.append(R); blocks_s.append(Sg)
            ops = scramble(r, [sp.block_diag(blocks_r, format="csr"), sp.block_diag(blocks_s, format="csr")], k % 2 == 1)
            us = [signed_perm(o) for o in ops]
            dn(n)("syn-%d-%d" % (n, k), ops, us, None, seed)
        return go
    for n in range(2, 8):
        for k in range(12 if big else 4):
            jobs.append(dperm(n, k, rng.randrange(10 ** 9)))

    # synthetic cyclic representations: cycles whose length divides n, closing with a phase
    def cyc(r, n):
        R = []
        for _ in range(r.randint(1, 3)):
            m = r.choice([m for m in range(1, n + 1) if n % m == 0])
            k = r.choice([k for k in range(4) if (k * (n // m)) % 4 == 0])
            B = np.roll(np.eye(m), 1, axis=0).astype(complex)
            B[0, m - 1] *= 1j ** k
            R.append(B)
        return sp.block_diag(R, format="csr")

    def zsyn(n, k, seed):
        def go():
            import random
            r = random.Random(seed)
            ops = scramble(r, [cyc(r, n)], k % 3 > 0)
            zn(n)("syn-%d-%d" % (n, k), ops, [signed_perm(o) for o in ops], None, seed)
        return go

    def tsyn(n1, n2, k, seed):
        def go():
            import random
            r = random.Random(seed)
            a, b = cyc(r, n1), cyc(r, n2)
            if a.shape[0] * b.shape[0] > 60:
                return
            ops = scramble(r, [sp.kron(a, sp.eye(b.shape[0]), "csr"), sp.kron(sp.eye(a.shape[0]), b, "csr")], k % 3 > 0)
            t2(n1, n2)("syn-%d%d-%d" % (n1, n2, k), ops, [signed_perm(o) for o in ops], None, seed)
        return go
    for n in range(1, 9):
        for k in range(15 if big else 4):
            jobs.append(zsyn(n, k, rng.randrange(10 ** 9)))
    for n1, n2 in ((2, 2), (2, 3), (3, 2), (4, 2), (2, 4), (3, 3), (4, 3), (1, 3), (3, 1), (4, 4)):
        for k in range(6 if big else 2):
            jobs.append(tsyn(n1, n2, k, rng.randrange(10 ** 9)))

    # full group of the 3 x 3 torus
    g = Geometry.createSquareGeometry(3, 3, bc1_open=False, bc2_open=False)
    fns = [symm.getRotFn(4, 1, 1), symm.getReflFn(np.array([0, 1]), 1, 1), symm.getTranslFn(np.array([1, 0])), symm.getTranslFn(np.array([0, 1]))]

    def w(tag, mk, v, seed):
        def go():
            import random
            ops, _ = rep(g, tag, mk, fns)
            if v:
                ops = scramble(random.Random(seed), ops, v == 2)
            us = [signed_perm(o) for o in ops]
            if any(u is None for u in us):
                return
            rec.ev("w-%s-%d" % (tag, v), "w", {"r": us[0], "s": us[1], "tx": us[2], "ty": us[3]},
                   lambda: symm.getC4V_and_3byb3(*ops), lambda r, q: enc_projs(q, r, ops[0].shape[0]), timeout=300)
        return go
    for k in ((0, 1, 2, 8, 9, 7, 3) if big else (0, 1, 2, 8)):
        jobs.append(w("f1-%d" % k, lambda k=k: fermions(g, 0, 1, ns=[k], nspecies=1), k % 3, rng.randrange(10 ** 9)))

    # tables supplied by the caller
    def table(k, t, sizes, ops):
        def go():
            cls, j = [], 0
            for s_ in sizes:
                cls.append(ops[j:j + s_])
                j += s_
            rec.ev("table-%d" % k, "table", {"t": t, "sz": sizes},
                   lambda: symm.get_symmetry_projectors(np.array(t), cls), lambda r, q: {})
        return go
    e2 = sp.eye(2, format="csr")
    x2 = sp.csr_matrix(np.array([[0., 1.], [1., 0.]]))
    R3 = sp.csr_matrix(np.roll(np.eye(3), 1, axis=0))
    S3 = sp.csr_matrix(np.eye(3)[[0, 2, 1]])
    I3 = sp.eye(3, format="csr")
    d3 = [I3, R3, R3 ** 2, S3, R3 * S3, R3 ** 2 * S3]
    d3p = [I3, S3, R3 * S3, R3 ** 2 * S3, R3, R3 ** 2]
    tabs = [([[1, 1], [1, -1]], [1, 1], [e2, x2]), ([[1, 1], [1, 1]], [1, 1], [e2, x2]), ([[1, -1], [1, -1]], [1, 1], [e2, x2]),
            ([[1, 1, 1], [1, 1, -1], [2, -1, 0]], [1, 2, 3], d3), ([[1, 1, 1], [1, -1, 1], [2, 0, -1]], [1, 3, 2], d3p),
            ([[1, 1, 1], [1, 1, -1], [2, 0, -1]], [1, 2, 3], d3), ([[1, 1, 1], [1, 1, -1], [2, -1, 0]], [1, 3, 2], d3p),
            ([[1, 1, 1], [1, 1, -1], [2, 1, 0]], [1, 2, 3], d3), ([[1, 1, 1], [1, 1, 1], [2, -1, 0]], [1, 2, 3], d3),
            ([[1, 1, 1], [1, 1, -1], [1, -1, 0]], [1, 2, 3], d3)]
    for k, t in enumerate(tabs):
        jobs.append(table(k, *t))

    # groups given by the caller: elements, classes and characters
    def group(k, name, seed, bad):
        def go():
            import random
            r = random.Random(seed)
            els, mul, cls, tab = group_of(name, r)
            acts = actions(name, els, mul, r)
            us = sum_of(acts)
            if len(us[0]) > (48 if big else 26):
                us = sum_of(acts[:1])
            # classes and rows in any order, identity first
            o = [0] + r.sample(range(1, len(cls)), len(cls) - 1)
            rows = r.sample(range(len(tab)), len(tab))
            cls = [r.sample(cls[c], len(cls[c])) for c in o]
            t = np.array([[tab[a][c] for c in o] for a in rows])
            if bad == 1 and len(tab) > 2:                 # two rows mixed up in one column
                a, b = r.sample(range(len(tab)), 2)
                t[[a, b], -1] = t[[b, a], -1]
            elif bad == 2:                                # one irrep twice, another missing
                a, b = r.sample(range(len(tab)), 2)
                t[a] = t[b]
            elif bad == 3:                                # an element filed under the wrong class
                a, b = r.sample(range(1, len(cls)), 2) if len(cls) > 2 else (0, 1)
                cls = [list(c) for c in cls]
                cls[b].append(cls[a].pop())
                if not cls[a]:
                    return
            d = len(us[0])
            perm = r.sample(range(d), d)
            inv = [perm.index(i) for i in range(d)]
            us = [[[perm[u[inv[c]][0]], u[inv[c]][1]] for c in range(d)] for u in us]
            cplx = any(x[1] % 2 for u in us for x in u)
            typ = complex if cplx else r.choice([float, complex, int, float])
            ops = [sp.csr_matrix((np.array([(1j ** x[1] if cplx else (1, 0, -1)[x[1]]) for x in u], dtype=typ),
                                  ([x[0] for x in u], range(d))), shape=(d, d)) for u in us]
            if not np.iscomplexobj(t) or np.all(t.imag == 0):
                t = t.real.astype(r.choice([int, float])) if np.all(t.real == np.round(t.real)) else t.real
            enc = [[[int(round(x.real * K)), int(round(x.imag * K))] for x in np.asarray(row, dtype=complex)] for row in t]
            rec.ev("grp-%s-%d-%d" % (name, k, bad), "grp",
                   {"mul": [[b + 1 for b in a] for a in mul], "cls": [[c + 1 for c in cc] for cc in cls], "t": enc,
                    "u": [[[x[0] + 1, x[1]] for x in u] for u in us]},
                   lambda: symm.get_symmetry_projectors(t, [[ops[g] for g in cc] for cc in cls], print_results=bool(seed % 5 == 0)),
                   lambda res, q: enc_projs(q, res, d), timeout=120)
        return go
    for name in GROUPS:
        for k in range(8 if big else 3):
            jobs.append(group(k, name, rng.randrange(10 ** 9), 0))
        for bad in (1, 2, 3):
            jobs.append(group(0, name, rng.randrange(10 ** 9), bad))

    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
