import hashlib
import importlib.util
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import numpy as np
import scipy.sparse as sp
from core import main, share, REPO
from clusterlib import *
from exact_diag.ed_spins import spinSystem
TCOLS = [0, 20, 36, 49]          # temperatures of real diagonalisations that are recorded
TASK = {"clusters": "cluster_data.dat", "table": "cluster_table.dat", "agg": "all_subclusters.dat", "results": "nlce_results.dat"}


def fname(n):
    if n in TASK:
        return TASK[n]
    return ("subcluster%s.dat" % n[3:]) if n.startswith("sub") else ("diag_cluster%s.dat" % n[4:])


def script(name):
    if name not in script.cache:
        path = os.path.join(REPO, "cluster", name + ".py")
        spec = importlib.util.spec_from_file_location("pipeline_" + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        script.cache[name] = getattr(m, name)
    return script.cache[name]


script.cache = {}


def heisenberg_sectors(g):
    """energies of sum of S.S over bonds by number of up spins, from a direct construction"""
    xy = plain(g)
    n = len(xy)
    bonds = [(a, b) for a in range(n) for b in range(a) if abs(xy[a][0] - xy[b][0]) + abs(xy[a][1] - xy[b][1]) == 1]
    out = []
    for m in range(n + 1):
        st = [s for s in range(2 ** n) if bin(s).count("1") == m]
        ix = {s: k for k, s in enumerate(st)}
        H = np.zeros((len(st), len(st)))
        for s in st:
            for a, b in bonds:
                if (s >> a & 1) == (s >> b & 1):
                    H[ix[s], ix[s]] += .25
                else:
                    H[ix[s], ix[s]] -= .25
                    H[ix[s ^ (1 << a) ^ (1 << b)], ix[s]] += .5
        out.append(np.linalg.eigvalsh(H))
    return out


def pieces(x):
    """the parts of a cluster file, wherever they are stored in it"""
    vs = list(x.values()) if isinstance(x, dict) else list(x)
    o = {}
    for v in vs:
        if isinstance(v, Geometry):
            o["c"] = v
        elif isinstance(v, (list, tuple)) and len(v) and isinstance(v[0], Geometry):
            o["cs"] = v
        elif sp.issparse(v):
            o["m"] = v
        elif isinstance(v, (int, np.integer)):
            o["n"] = v
        elif not isinstance(v, (float, str)):
            a = np.ravel(np.asarray(v))
            o["edge" if a.size and a[0] == 0 else "mult"] = a
    return o


class Pipe:
    def __init__(self, rec, tag, order, fake, cli, r):
        self.rec, self.tag, self.order, self.fake, self.cli, self.r = rec, tag, order, fake, cli, r
        self.d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        self.k = 0
        self.truth = {}
        self.nt = r.randint(1, 3)
        rec.ev("%s#0-reset" % tag, "reset", {"n": order}, lambda: None, lambda x, q: 0)

    def snap(self):
        o = {}
        for x in os.listdir(self.d):
            with open(os.path.join(self.d, x), "rb") as f:
                o[x] = hashlib.sha1(f.read()).hexdigest()
        return o

    def call(self, name, args, idx=None):
        """run one job the way the batch system does"""
        if self.cli:
            a = ([str(idx)] if idx is not None else []) + [str(x) for x in args]
            p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, "cluster", name + ".py")] + a, cwd=self.d,
                               env=dict(os.environ, PYTHONPATH=REPO), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
            if p.returncode:
                raise RuntimeError("exit %d" % p.returncode)
            return p.stdout.decode().split()[-1] if p.stdout.split() else None
        return script(name)(*(([idx - 1] if idx is not None else []) + list(args)))

    def load(self, n):
        with open(os.path.join(self.d, fname(n)), "rb") as f:
            return pickle.load(f)

    def ev(self, op, i, fn, body=None):
        self.k += 1
        before = self.snap()

        def run():
            old = os.getcwd()
            os.chdir(self.d)
            try:
                return False, fn()
            except Exception:
                return True, None
            finally:
                os.chdir(old)

        def enc(res, q):
            after = self.snap()
            back = {}
            for x in after:
                for nm in list(TASK) + ["sub%d" % k for k in range(1, 40)] + ["diag%d" % k for k in range(1, 40)]:
                    if fname(nm) == x:
                        back[x] = nm
            return {"rejected": res[0], "files": sorted(back.get(x, x) for x in after),
                    "changed": sorted(back.get(x, x) for x in after if before.get(x) != after[x]),
                    "b": body(res[1], q) if body and not res[0] else 0}
        self.rec.ev("%s#%d-%s%s" % (self.tag, self.k, op, i or ""), op, {"i": i, "fake": self.fake}, run, enc, timeout=200)

    def lst(self, q, x, count):
        return {"n": int(x["n"]), "cs": [cl(q, g) for g in x["cs"]], "mult": q.vec(x["mult"]), "edge": [int(e) for e in x["edge"]], "count": int(count)}

    def gen(self, i=0):
        def body(c, q):
            return self.lst(q, pieces(self.load("clusters")), c)
        self.ev("gen", 0, lambda: self.call("generate_clusters_no_subs", [fname("clusters"), self.order]), body)

    def table(self, i=0):
        def body(c, q):
            x = pieces(self.load("table"))
            return dict(self.lst(q, x, c), m=q.smat(x["m"]))
        self.ev("table", 0, lambda: self.call("generate_clusters", [fname("table"), self.order]), body)

    def sub(self, i):
        def body(c, q):
            x = pieces(self.load("sub%d" % i))
            return {"idx": int(x["n"]), "m": q.smat(x["m"]), "c": cl(q, x["c"])}
        self.ev("sub", i, lambda: self.call("find_subclusters", [fname("sub%d" % i), fname("clusters")], i), body)

    def aggsub(self, i=0):
        def body(c, q):
            x = pieces(self.load("agg"))
            return dict(self.lst(q, x, 0), m=q.smat(x["m"]))
        self.ev("aggsub", 0, lambda: self.call("aggregate_subclusters", ["subcluster*.dat", fname("agg"), fname("clusters")]), body)

    def diag(self, i):
        if not self.fake:
            return self.ev("diag", i, lambda: self.call("diag_cluster", [fname("diag%d" % i), fname("clusters")], i), lambda c, q: self.real(i, q))

        def put():
            with open(fname("clusters"), "rb") as f:
                c = pieces(pickle.load(f))["cs"][i - 1]
            v = self.truth.setdefault(i, [[self.r.randint(-5, 5) for _ in range(self.nt)] for _ in range(4)])
            a = [np.array([x], dtype=float) for x in v]
            with open(fname("diag%d" % i), "wb") as f:
                pickle.dump([c, np.zeros(2), a[0], a[1], a[2], a[3], np.arange(1., self.nt + 1), None], f)
        self.ev("diag", i, put, lambda c, q: {"v": self.truth[i]})

    def real(self, i, q):
        g, eig, en, ent, heat, zz, temps, model = self.load("diag%d" % i)
        sec = heisenberg_sectors(g)
        allE = np.concatenate(sec)
        e0 = allE.min()
        T = [float(np.ravel(temps)[t]) for t in TCOLS]
        pick = lambda a: [np.ravel(a)[t] for t in TCOLS]
        vals = [q.nvec(pick(a), 1000) for a in (en, ent, heat, zz)]
        for a in (en, ent, heat, zz):
            if np.shape(a) != (1, len(np.ravel(temps))):
                q.exact = False
        return {"c": cl(q, g), "E": q.nvec(eig, 1000), "spec": [q.nvec(s, 1000) for s in sec],
                "ps": [[q.near(np.sum((4 * s) ** k), 1000) for k in range(1, 5)] for s in sec],
                "T": [q.near(t, 1000) for t in T], "w": [[q.nvec(np.exp(-(s - e0) / t), 2000) for s in sec] for t in T],
                "lnZ": [q.near(np.log(np.sum(np.exp(-(allE - e0) / t))) - e0 / t, 1000) for t in T],
                "en": vals[0], "ent": vals[1], "cT2": [q.near(x * t * t, 1000) for x, t in zip(pick(heat), T)], "zz": vals[3], "v": vals}

    def aggres(self, i=0):
        def body(c, q):
            x = self.load("results")
            nt = self.nt if self.fake else len(np.ravel(x[21]))
            n, no = len(x[0]), self.order
            one = (lambda v, s=1: q.i(v, s)) if self.fake else (lambda v, s=1: q.near(v, 1000 * s))
            cols = list(range(nt)) if self.fake else TCOLS

            def grp(k):
                al, nl, od, w, eu = [np.asarray(a) for a in x[k:k + 5]]
                al, w, od = al.reshape(n, nt), w.reshape(n, nt), od.reshape(no, nt)
                nl, eu = nl.reshape(nt), eu.reshape(nt)
                return {"all": [[one(a[t]) for t in cols] for a in al], "w": [[one(a[t]) for t in cols] for a in w],
                        "o": [[one(a[t]) for t in cols] for a in od], "x": [one(nl[t]) for t in cols], "eu": [one(eu[t], 2 ** no) for t in cols]}
            return {"cs": [sites(q, g) for g in x[0]], "g": [grp(k) for k in (1, 6, 11, 16)]}
        self.ev("aggres", 0, lambda: self.call("aggregate_results", ["diag_cluster*.dat", fname("agg"), fname("results")]), body)

    def lose(self, op, i):
        nm = {"losesub": "sub%d" % i, "losediag": "diag%d" % i, "loselist": "clusters", "loseagg": "agg", "loseres": "results"}[op]
        self.ev(op, i, lambda: os.remove(fname(nm)))

    def step(self, op, i):
        if op.startswith("lose"):
            self.lose(op, i)
        else:
            getattr(self, op)(i)


COUNT = {1: 1, 2: 2, 3: 4, 4: 9, 5: 21}


def schedule(r, order, extra, fake):
    """a random complete schedule with disturbances"""
    n = COUNT[order]
    have = {"list": False, "sub": set(), "diag": set(), "agg": False, "res": False}
    out = []
    while not have["res"]:
        dist = extra > 0 and r.random() < .25
        if dist:
            extra -= 1
            c = [("gen", 0), ("table", 0), ("sub", r.randint(1, n + 1)), ("diag", r.randint(1, n + 1)), ("aggsub", 0), ("aggres", 0)]
            c += [("losesub", x) for x in have["sub"]] + [("losediag", x) for x in have["diag"]]
            if have["list"] and r.random() < .3:
                c.append(("loselist", 0))
            if have["agg"]:
                c.append(("loseagg", 0))
            op, i = r.choice(c)
        else:
            c = []
            if not have["list"]:
                c.append(("gen", 0))
            else:
                c += [("sub", x) for x in range(1, n + 1) if x not in have["sub"]] + [("diag", x) for x in range(1, n + 1) if x not in have["diag"]]
                if len(have["sub"]) == n and not have["agg"]:
                    c.append(("aggsub", 0))
            if have["agg"] and len(have["diag"]) == n:
                c = [("aggres", 0)] if have["list"] or r.random() < .5 else c + [("aggres", 0)]
            op, i = r.choice(c)
        out.append((op, i))
        if op == "gen":
            have["list"] = True
        elif op in ("sub", "diag") and have["list"] and i <= n:
            have[op].add(i)
        elif op == "aggsub" and have["list"] and len(have["sub"]) == n:
            have["agg"] = True
        elif op == "aggres" and have["agg"] and len(have["diag"]) == n:
            have["res"] = True
        elif op in ("losesub", "losediag"):
            have[op[4:]].discard(i)
        elif op == "loselist":
            have["list"] = False
        elif op == "loseagg":
            have["agg"] = False
    return out


def run(rec, rng, tier, part, nparts):
    big = tier == "thorough"
    jobs = []

    def go(tag, order, hist, fake, cli, seed):
        def f():
            P = Pipe(rec, tag, order, fake, cli, random.Random(seed))
            for op, i in hist:
                P.step(op, i)
        return f
    with open(os.path.join(os.environ["VERIF_GEN"], "c22.json")) as f:
        hs = json.load(f)
    rng.shuffle(hs)
    for k, h in enumerate(hs[:400 if big else 60]):
        jobs.append(go("gen-%d" % k, 2, [(x["op"], x["i"]) for x in h], k % 8 != 0, False, rng.randrange(10 ** 9)))
    for k in range(120 if big else 16):
        o = rng.choice([1, 2, 3, 3, 4] + ([4, 5] if big else []))
        jobs.append(go("run-%d" % k, o, schedule(rng, o, rng.randint(0, 5), True), True, False, rng.randrange(10 ** 9)))
    for k in range(4 if big else 1):
        jobs.append(go("wide-%d" % k, 5, schedule(rng, 5, k + 1, True), True, False, rng.randrange(10 ** 9)))
    for k in range(10 if big else 4):
        o = [3, 2, 4, 3][k % 4]
        jobs.append(go("real-%d" % k, o, schedule(rng, o, 2, False), False, False, rng.randrange(10 ** 9)))
    for k in range(6 if big else 2):
        jobs.append(go("cli-%d" % k, 2 + (k % 2 if big else 0), schedule(rng, 2 + (k % 2 if big else 0), k % 3, False), k % 2 == 1, True, rng.randrange(10 ** 9)))
    for k in range(4 if big else 3):
        jobs.append(go("table-%d" % k, k + 1, [("table", 0), ("gen", 0), ("table", 0)], True, k == 1, 1))
    rng.shuffle(jobs)
    mine = list(share(jobs, part, nparts))
    for k in range(0, len(mine), 4):
        with rec.history():
            for j in mine[k:k + 4]:
                j()


if __name__ == "__main__":
    main(run)
