import json
import os
import random
import subprocess
import sys
import tempfile
import numpy as np
import scipy.sparse as sp
from core import main, share, Q
from manybody import *
from drivers.c07 import make_params, SC
from geos import small_geoms, desc
FILES = {"f": "first.pkl", "g": "second.v2.pkl"}


def view(q, m):
    """what a user can see of a model: Hamiltonian, and the rest"""
    g = m.geometry
    h = q.smat(m.createH(), 4 * SC)
    rest = [[round(float(x), 6) + 0. for x in np.ravel(v)] for v in (g.xlocs, g.ylocs)] + [[int(round(x)) for x in np.asarray(g.adjacency_mat).ravel()],
            [[round(float(f(x)), 6) + 0. for f in (np.real, np.imag)] for x in np.asarray(g.phase_mat).ravel()], [int(m.nstates), int(m.nbasis), int(m.nspecies), int(g.nsites)]]
    if isinstance(m, fermions):
        p = q.smat(m.n_projector)
        rest.append([p["nr"], p["nc"]] + sum(p["e"], []))
    return {"h": h, "rest": json.dumps(rest), "live": True}


DEAD = {"h": {"nr": 0, "nc": 0, "e": []}, "rest": "", "live": False}


class Life:
    def __init__(self, rec, tag, d):
        self.rec, self.tag, self.d = rec, tag, d
        self.objs, self.mk, self.k = {}, {}, 0

    def path(self, f):
        return os.path.join(self.d, FILES[f])

    def out(self, q, **kw):
        names = {v: k for k, v in FILES.items()}
        o = {"objs": {n: view(q, self.objs[n]) if n in self.objs else DEAD for n in "ABC"},
             "files": [names.get(x, x) for x in sorted(os.listdir(self.d))]}
        o.update(kw)
        return o

    def ev(self, op, inp, fn, enc=None):
        self.k += 1
        return self.rec.ev("%s#%d-%s" % (self.tag, self.k, op), op, inp, fn, enc or (lambda r, q: self.out(q)))

    def new(self, n, cls, make, like=""):
        def go():
            self.objs[n] = make()
            self.mk[n] = (cls, make)
        self.ev("new", {"obj": n, "like": like}, go)

    def save(self, n, f):
        self.ev("save", {"obj": n, "file": f}, lambda: self.objs[n].save(self.path(f)), lambda r, q: self.out(q, named=r == self.path(f)))

    def savedefault(self, n, into):
        def go():
            tmp = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
            old = os.getcwd()
            os.chdir(tmp)
            try:
                name = self.objs[n].save()
                here = os.listdir(tmp)
                back = into()
                back.load(name)
                return here == [name] and name.endswith(".pkl"), back
            finally:
                os.chdir(old)
        self.ev("savedefault", {"obj": n}, go, lambda r, q: self.out(q, named=bool(r[0]), ret=view(q, r[1])))

    def load(self, n, f):
        def go():
            r = self.objs[n].load(self.path(f))
            return r
        self.ev("load", {"obj": n, "file": f}, go, lambda r, q: self.out(q, ret=view(q, r)))

    def restart(self, f):
        code = ("import sys, json\nsys.path[:0] = %r\nfrom core import Q\nfrom drivers.c21 import view\n"
                "from manybody import *\nimport pickle\nm = pickle.load(open(%r, 'rb'))\nn = %s\nn.load(%r)\nq = Q()\nv = view(q, n)\n"
                "print('VIEW' + json.dumps([v, q.exact]))\n")

        def go():
            probe = "type(m)(chain(1), 0, 0)" if False else "fermions(chain(1), 0, 0) if isinstance(m, fermions) else spinSystem(chain(1))"
            r = subprocess.run([sys.executable, "-W", "ignore", "-c", code % ([p for p in sys.path if p], self.path(f), probe, self.path(f))],
                               capture_output=True, text=True, timeout=100)
            line = [x for x in r.stdout.splitlines() if x.startswith("VIEW")]
            return json.loads(line[0][4:])

        def enc(r, q):
            if not r[1]:
                q.exact = False
            return self.out(q, ret=r[0])
        self.ev("restart", {"file": f}, go, enc)

    def bump(self, n, kind):
        m = self.objs[n]
        fer = isinstance(m, fermions)
        nb = m.geometry.nsites * m.nspecies

        def go():
            if fer:
                if kind == 0:
                    m.mus = np.asarray(m.mus, dtype=float) - 1
                elif kind == 1:
                    m.potentials = np.asarray(m.potentials, dtype=float) + 1
                else:
                    a = m.mus
                    if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.flags.writeable:
                        a -= 1
                    else:
                        m.mus = np.asarray(a, dtype=float) - 1
            else:
                a = m.hz
                if kind == 2 and isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.flags.writeable:
                    a -= 2
                else:
                    m.hz = np.asarray(a, dtype=float) - 2
        self.ev("bump", {"obj": n, "cls": "fermion" if fer else "spin", "nbits": nb, "w": 4 * SC}, go)

    def query(self, n, r):
        m = self.objs[n]
        fer = isinstance(m, fermions)
        N = m.geometry.nsites
        D = m.nstates
        H = m.createH()
        P = sp.csr_matrix(np.eye(D)[:max(1, D // 2)])
        v = np.eye(D)[:, :2] if D > 1 else np.ones((1, 1))
        op = m.n_op if fer else m.sz
        loc = np.array([[0, 0], [0, 1]])
        qs = [lambda: m.createH(projector=P), lambda: m.diagH(H), lambda: m.get_state_vects(), lambda: m.get_xform_op([list(range(N))]),
              lambda: m.get_sum_op(op), lambda: m.get_single_site_op(N - 1, 0, loc, format="boson"), lambda: m.get_two_site_op(0, 0, N - 1, 0, loc, loc, format="boson"),
              lambda: m.get_exp_vals(v, H), lambda: m.get_exp_vals_sites(v[:, :1], loc, 0), lambda: m.get_partition_fn_hamiltonian(H, 1.),
              lambda: m.diagH(m.createH().tolil()), lambda: m.get_exp_vals_thermal(v, H, np.zeros(v.shape[1]), 1.),
              lambda: m.get_npairs_op(0), lambda: m.get_swap_op(0, N - 1, 0)]
        if fer:
            qs += [lambda: m.get_kinetic_op(), lambda: m.get_current_op(np.array([1, 0])), lambda: m.get_potential_op(m.potentials), lambda: m.get_chemical_pot_op(m.mus),
                   lambda: m.get_u_interspecies_op(m.us_interspecies), lambda: m.get_u_samespecies_op(m.us_same_species)]
        else:
            qs += [lambda: m.get_interaction_op(), lambda: m.get_field_op(), lambda: m.get_rydberg_detunes(m.jz), lambda: m.get_interaction_mat_c6(3.), lambda: m.get_allup_state()]
        chosen = [r.choice(qs) for _ in range(3)]

        def go():
            for c in chosen:
                try:
                    c()
                except Exception:
                    pass        # what queries return is the business of other properties
        self.ev("query", {"obj": n}, go)

    def bad(self, n, r):
        def go():
            try:
                if r.random() < .5:
                    self.objs[n].save(os.path.join(self.d, r.choice(["x.txt", "model", "x.pkl.gz"])))
                else:
                    self.objs[n].load(os.path.join(self.d, r.choice(["x.txt", "model"])))
                return False
            except Exception:
                return True
        self.ev("badsave", {"obj": n}, go, lambda x, q: self.out(q, rejected=bool(x)))

    def missing(self, n):
        def go():
            try:
                self.objs[n].load(os.path.join(self.d, "missing.pkl"))
                return False
            except Exception:
                return True
        self.ev("badload", {"obj": n}, go, lambda x, q: self.out(q, rejected=bool(x)))


def makers(r):
    """(class, constructor thunk) of random small models"""
    if r.random() < .65:
        ns = r.choice([1, 2, 2, 3, 4, 5])
        g = r.choice(small_geoms(r, {1: 4, 2: 2}[ns], 3)) if ns < 3 else Geometry.createSquareGeometry(1, 1)
        n = g.nsites
        p, kw = make_params(r, n, ns)
        if r.random() < .5:
            kw["ns"] = [r.randint(0, n) for _ in range(ns)]
        gd = desc(g)
        return "fermion", lambda: fermions(g, nspecies=ns, **{k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
    g = r.choice(small_geoms(r, 3, 3, twist=False))
    kw = {k: r.randint(-4, 4) / 2 for k in ("jx", "jy", "jz", "hx", "hy", "hz")}
    ryd = r.random() < .3
    return "spin", lambda: spinSystem(g, use_ryd_detunes=ryd, **kw)


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []
    hists = json.load(open(os.path.join(os.environ["VERIF_GEN"], "c21.json")))

    def fresh():
        return tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])

    def pair(r):
        a = makers(r)
        while True:
            b = makers(r)
            if b[0] == a[0]:
                return a, b

    def replay(chunk, seed):
        def go():
            r = random.Random(seed)
            with rec.history():
                for k, h in chunk:
                    rec.ev("gen-%d#0-reset" % k, "reset", {}, lambda: None, lambda x, q: 0)
                    L = Life(rec, "gen-%d" % k, fresh())
                    a, b = pair(r)
                    L.new("A", *a)
                    L.new("B", *b)
                    for st in h:
                        o, f = st["obj"], "f" if st["file"] == 1 else "g"
                        if st["act"] == "save":
                            L.save(o, f)
                        elif st["act"] == "load":
                            L.load(o, f)
                        elif st["act"] == "bump":
                            L.bump(o, r.randrange(3))
                        else:
                            L.query(o, r)
        return go
    hs = list(enumerate(hists))
    random.Random(5).shuffle(hs)
    hs = hs[:3000 if big else 160]
    for c in range(0, len(hs), 10):
        jobs.append(replay(hs[c:c + 10], rng.randrange(10 ** 9)))

    def long(ks, seed):
        def go():
            r = random.Random(seed)
            with rec.history():
                for k in ks:
                    one(k, r)
        return go

    def one(k, r):
        rec.ev("long-%d#0-reset" % k, "reset", {}, lambda: None, lambda x, q: 0)
        L = Life(rec, "long-%d" % k, fresh())
        a, b = pair(r)
        L.new("A", *a)
        L.new("B", *b)
        saved = set()
        if r.random() < .5:
            L.new("C", *a, like="A")
        for _ in range(r.randint(4, 10)):
            o = r.choice(sorted(L.objs))
            f = r.choice("fg")
            x = r.random()
            if x < .25:
                L.save(o, f)
                saved.add(f)
            elif x < .5 and f in saved:
                L.load(o, f)
            elif x < .65:
                L.bump(o, r.randrange(3))
            elif x < .8:
                L.query(o, r)
            elif x < .85:
                L.bad(o, r)
            elif x < .88:
                L.missing(o)
            elif x < .92:
                L.savedefault(o, r.choice([a, b])[1])
            elif f in saved and k % 4 == 0:
                L.restart(f)
    for k in range(0, 400 if big else 56, 7):
        jobs.append(long(range(k, k + 7), rng.randrange(10 ** 9)))
    for j in share(jobs, part, nparts):
        j()


if __name__ == "__main__":
    main(run)
