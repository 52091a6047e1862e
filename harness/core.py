"""Driver-side library: run calls of the real exact_diag code and record them as
integer-valued events that the TLA+ specifications in /verif/spec judge.

Nothing in here decides anything: numbers are scaled and rounded to integers
(`exact` is false when a value was not within tolerance of the grid), shapes are
normalised, exceptions and timeouts become part of the event.
"""
import contextlib
import io
import json
import math
import os
import random
import signal
import sys
import warnings
from pathlib import Path

import numpy as np
import scipy.sparse as sp

REPO = os.environ.get("VERIF_REPO", "/repo")
LIM = 2 ** 31 - 1


class CallTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Q:
    """Quantiser: maps numbers to integers and remembers whether all were on the grid."""

    def __init__(self):
        self.exact = True

    def i(self, x, scale=1, tol=1e-6):
        """real number -> int(x*scale)"""
        try:
            if sp.issparse(x):
                x = x.toarray()
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    self.exact = False
                    return 0
                x = x.ravel()[0]
            x = complex(x)
        except Exception:
            self.exact = False
            return 0
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            self.exact = False
            return 0
        v = x.real * scale
        r = round(v)
        if abs(v - r) > tol * max(1.0, abs(v) * 1e-3) or abs(x.imag * scale) > tol * max(1.0, abs(v) * 1e-3):
            self.exact = False
        if abs(r) > LIM:
            self.exact = False
            return 0
        return int(r)

    def near(self, x, scale):
        """real number -> nearest int(x*scale), no exactness requirement except
        finiteness, range and vanishing imaginary part (for fixed-point comparisons)"""
        try:
            if sp.issparse(x):
                x = x.toarray()
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    self.exact = False
                    return 0
                x = x.ravel()[0]
            x = complex(x)
        except Exception:
            self.exact = False
            return 0
        if not (math.isfinite(x.real) and math.isfinite(x.imag)):
            self.exact = False
            return 0
        if abs(x.imag) * scale > 1 or abs(x.real * scale) > LIM:
            self.exact = False
            return 0
        return int(round(x.real * scale))

    def c(self, x, scale=1, tol=1e-6):
        """complex number -> [re, im] ints"""
        try:
            if sp.issparse(x):
                x = x.toarray()
            x = complex(np.asarray(x).ravel()[0]) if isinstance(x, np.ndarray) else complex(x)
        except Exception:
            self.exact = False
            return [0, 0]
        return [self.i(x.real, scale, tol), self.i(x.imag, scale, tol)]

    def cnear(self, x, scale):
        try:
            x = complex(np.asarray(x).ravel()[0]) if isinstance(x, np.ndarray) else complex(x)
        except Exception:
            self.exact = False
            return [0, 0]
        return [self.near(x.real, scale), self.near(x.imag, scale)]

    def vec(self, v, scale=1, tol=1e-6):
        if sp.issparse(v):
            v = v.toarray()
        return [self.i(x, scale, tol) for x in np.asarray(v).ravel()]

    def nvec(self, v, scale):
        if sp.issparse(v):
            v = v.toarray()
        return [self.near(x, scale) for x in np.asarray(v).ravel()]

    def cvec(self, v, scale=1, tol=1e-6):
        if sp.issparse(v):
            v = v.toarray()
        return [self.c(x, scale, tol) for x in np.asarray(v).ravel()]

    def mat(self, m, scale=1, tol=1e-6):
        """dense integer matrix, list of rows"""
        m = m.toarray() if sp.issparse(m) else np.asarray(m)
        if m.ndim != 2:
            self.exact = False
            return []
        return [[self.i(x, scale, tol) for x in row] for row in m]

    def cmat(self, m, scale=1, tol=1e-6):
        m = m.toarray() if sp.issparse(m) else np.asarray(m)
        if m.ndim != 2:
            self.exact = False
            return []
        return [[self.c(x, scale, tol) for x in row] for row in m]

    def smat(self, m, scale=1, tol=1e-6, cols=None):
        """sparse complex matrix: [rows, cols, [[r, c, re, im], ...]] (0-based, zeros dropped, sorted);
        with cols only the entries in those columns are listed"""
        if not sp.issparse(m):
            m = np.asarray(m)
            if m.ndim != 2:
                self.exact = False
                return {"nr": -1, "nc": -1, "e": []}
            m = sp.csr_matrix(m)
        m = m.tocoo()
        m.sum_duplicates()
        ent = []
        for r, c, v in zip(m.row, m.col, m.data):
            if cols is not None and c not in cols:
                continue
            a, b = self.c(v, scale, tol)
            if a != 0 or b != 0:
                ent.append([int(r), int(c), a, b])
        ent.sort()
        return {"nr": int(m.shape[0]), "nc": int(m.shape[1]), "e": ent}

    def cols(self, m, scale):
        """square complex matrix by columns, 1-based, rounded to the nearest grid point:
        {d, c: [[[row, re, im], ...], ...]} (zeros dropped)"""
        m = sp.csc_matrix(m)
        m.sum_duplicates()
        if m.shape[0] != m.shape[1]:
            self.exact = False
            return {"d": -1, "c": []}
        out = []
        for c in range(m.shape[1]):
            col = []
            for k in range(m.indptr[c], m.indptr[c + 1]):
                a, b = self.near(complex(m.data[k]).real, scale), self.near(complex(m.data[k]).imag, scale)
                if a or b:
                    col.append([int(m.indices[k]) + 1, a, b])
            out.append(sorted(col))
        return {"d": int(m.shape[0]), "c": out}


def nlen(x):
    try:
        return int(len(x))
    except Exception:
        return -1


class Rec:
    def __init__(self, outdir, tag, max_events=200, max_weight=None):
        self.outdir = Path(outdir)
        self.tag = tag
        self.max_events = max_events
        self.nfile = 0
        self.fh = None
        self.n = 0
        self.total = 0
        self.seen = {}
        self.auto = True
        signal.signal(signal.SIGALRM, _alarm)

    def _roll(self):
        if self.fh is not None:
            self.fh.close()
            self.fh = None
        self.n = 0

    def cut(self):
        """start a new trace file (a new behaviour)"""
        self._roll()

    @contextlib.contextmanager
    def history(self):
        """all events inside belong to one behaviour and stay in one file"""
        self._roll()
        self.auto = False
        try:
            yield
        finally:
            self.auto = True
            self._roll()

    def write(self, ev):
        k = ev["id"]
        if k in self.seen:
            self.seen[k] += 1
            ev["id"] = "%s~%d" % (k, self.seen[k])
        else:
            self.seen[k] = 0
        if self.fh is None or (self.auto and self.n >= self.max_events):
            self._roll()
            self.fh = open(self.outdir / ("%s-%04d.ndjson" % (self.tag, self.nfile)), "w")
            self.nfile += 1
        self.fh.write(json.dumps(ev) + "\n")
        self.n += 1
        self.total += 1

    def ev(self, id, op, inp, fn, enc=None, timeout=120):
        """run fn() and record it; returns (ok, result)"""
        ok, exc, res, out, mal = True, "", None, {}, ""
        buf = io.StringIO()
        signal.alarm(timeout)
        try:
            with contextlib.redirect_stdout(buf), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = fn()
        except CallTimeout:
            ok, exc = False, "timeout"
        except BaseException as e:      # noqa
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            ok, exc = False, type(e).__name__
            self.last_exc = e
        finally:
            signal.alarm(0)
        q = Q()
        if ok and enc is not None:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = enc(res, q)
            except Exception as e:
                mal = "%s: %s" % (type(e).__name__, e)
                out = {}
        self.write({"id": str(id), "op": op, "inp": inp, "ok": ok, "exc": exc,
                    "mal": bool(mal), "why": mal[:200], "exact": bool(q.exact), "out": out})
        return ok, res


def main(run):
    """entry point for a driver process: driver.py OUTDIR TIER SEED PART NPARTS"""
    outdir, tier, seed, part, nparts = sys.argv[1:6]
    seed, part, nparts = int(seed), int(part), int(nparts)
    rec = Rec(outdir, "p%02d" % part)
    run(rec, random.Random(seed * 1000003 + 17), tier, part, nparts)
    rec._roll()
    print("EVENTS %d" % rec.total)


def share(jobs, part, nparts):
    return [j for k, j in enumerate(jobs) if k % nparts == part]
