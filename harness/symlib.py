"""Symmetry operators of small real clusters, restricted to number sectors."""
import numpy as np
import scipy.sparse as sp
from exact_diag.ed_geometry import Geometry
from exact_diag.ed_fermions import fermions
from exact_diag.ed_spins import spinSystem
from exact_diag import ed_symmetry as symm


def signed_perm(m):
    """permutation matrix with phases i^k -> [[row, k], ...] per column (1-based), None if it is not one"""
    m = sp.csc_matrix(m)
    m.data[abs(m.data) < 1e-9] = 0
    m.eliminate_zeros()
    out = []
    for c in range(m.shape[1]):
        ks = range(m.indptr[c], m.indptr[c + 1])
        if len(ks) != 1:
            return None
        v = complex(m.data[ks[0]])
        k = [j for j in range(4) if abs(v - 1j ** j) < 1e-9]
        if not k:
            return None
        out.append([int(m.indices[ks[0]]) + 1, k[0]])
    return out


def op_of(model, geom, fn):
    cyc, n = symm.findSiteCycles(fn, geom)
    return model.get_xform_op(cyc), n


def sector(model, ns):
    return model.n_projector


def scramble(rng, ops, phases=False):
    """the same representation in another basis of the same states, reordered and with other signs (or phases)"""
    d = ops[0].shape[0]
    p = list(range(d))
    rng.shuffle(p)
    s = [rng.choice([1., -1., 1j, -1j] if phases else [1., -1.]) for _ in range(d)]
    D = sp.csr_matrix((s, (range(d), p)), shape=(d, d))
    return [(D * o * D.conj().T).tocsr() for o in ops]


def restrict(P, op):
    return (P * op * P.conj().transpose()).tocsr()


# ---------------------------------------------------------------- abstract groups with character tables
W3 = np.exp(2j * np.pi / 3)
SMALL = {"S3": [[1, 1, 1], [1, 1, -1], [2, -1, 0]], "Q8": [[1, 1, 1, 1, 1], [1, 1, 1, -1, -1], [1, 1, -1, 1, -1], [1, 1, -1, -1, 1], [2, -2, 0, 0, 0]],
         "A4": [[1, 1, 1, 1], [1, 1, W3, W3 ** 2], [1, 1, W3 ** 2, W3], [3, -1, 0, 0]],
         "S4": [[1, 1, 1, 1, 1], [1, -1, 1, 1, -1], [2, 0, 2, -1, 0], [3, 1, -1, 0, -1], [3, -1, -1, 0, 1]]}
GROUPS = ["Z2", "Z3", "Z4", "Z2xZ2", "Z4xZ2", "S3", "Q8", "A4", "S4", "Z3xS3", "Z4xS3", "Z2xQ8", "Z2xZ2xZ2"]


def pmul(a, b):
    return tuple(a[x] for x in b)


def sgn(p):
    return 1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 == 0 else -1


def factor(name):
    """(elements, product, classes, table); element 0 is the identity"""
    import itertools
    if name[0] == "Z":
        n = int(name[1:])
        return list(range(n)), lambda a, b: (a + b) % n, [[k] for k in range(n)], [[np.exp(2j * np.pi * a * b / n) if (a * b * 4) % n or n == 3 else 1j ** (a * b * 4 // n % 4) for b in range(n)] for a in range(n)]
    if name == "Q8":       # (sign, unit) with units 1 i j k
        T = {(1, 1): (-1, 0), (2, 2): (-1, 0), (3, 3): (-1, 0), (1, 2): (1, 3), (2, 1): (-1, 3), (2, 3): (1, 1), (3, 2): (-1, 1), (3, 1): (1, 2), (1, 3): (-1, 2)}

        def m(a, b):
            s, u = T.get((a[1], b[1]), (1, a[1] or b[1]))
            return a[0] * b[0] * s, u
        els = [(s, u) for u in range(4) for s in (1, -1)]
        return els, m, [[(1, 0)], [(-1, 0)]] + [[(1, u), (-1, u)] for u in (1, 2, 3)], SMALL["Q8"]
    n = int(name[1])
    ps = [p for p in itertools.permutations(range(n)) if name[0] == "S" or sgn(p) == 1]
    fixed = lambda p: sum(p[i] == i for i in range(n))
    if name == "S3":
        cls = [[p for p in ps if fixed(p) == f] for f in (3, 0, 1)]
    elif name == "S4":
        typ = lambda p: (fixed(p), sgn(p))
        cls = [[p for p in ps if typ(p) == t] for t in ((4, 1), (2, -1), (0, 1), (1, 1), (0, -1))]
    else:
        c = (1, 2, 0, 3)
        inv = lambda p: tuple(sorted(range(n), key=lambda i: p[i]))
        one = {pmul(pmul(g, c), inv(g)) for g in ps}
        three = [p for p in ps if fixed(p) == 1]
        cls = [[p for p in ps if fixed(p) == 4], [p for p in ps if fixed(p) == 0], [p for p in three if p in one], [p for p in three if p not in one]]
    return ps, pmul, cls, SMALL[name]


def group_of(name, r):
    import itertools
    fs = [factor(f) for f in name.split("x")]
    els = list(itertools.product(*[f[0] for f in fs]))
    ix = {e: i for i, e in enumerate(els)}
    mul = [[ix[tuple(f[1](x, y) for f, x, y in zip(fs, a, b))] for b in els] for a in els]
    cls = [[ix[e] for e in itertools.product(*c)] for c in itertools.product(*[f[2] for f in fs])]
    tab = [[np.prod([t[c] for t, c in zip(rows, cc)]) for cc in itertools.product(*[range(len(f[2])) for f in fs])]
           for rows in itertools.product(*[f[3] for f in fs])]
    return els, mul, cls, tab


def closure(gens, mul):
    H = {0}
    todo = [0]
    while todo:
        h = todo.pop()
        for g in gens:
            if mul[h][g] not in H:
                H.add(mul[h][g])
                todo.append(mul[h][g])
    return sorted(H)


def lin_chars(name):
    """quarter-turn characters of the group: element -> k with value i^k"""
    import itertools
    per = []
    for f in name.split("x"):
        els, m, cls, tab = factor(f)
        good = [row for row in tab if abs(row[0] - 1) < 1e-9 and all(any(abs(x - 1j ** k) < 1e-9 for k in range(4)) for x in row)]
        per.append([{e: next(k for k in range(4) if abs(row[i] - 1j ** k) < 1e-9) for i, c in enumerate(cls) for e in c} for row in good])
    return list(itertools.product(*per))


def actions(name, els, mul, r):
    """some monomial representations: cosets of a subgroup, twisted by a linear character of the whole group, and
    for the quaternions their two dimensional one"""
    out = []
    n = len(els)
    lin = lin_chars(name)
    for _ in range(r.randint(1, 3)):
        H = closure([r.randrange(n) for _ in range(r.choice([0, 1, 1, 2]))], mul)
        cos, rep, where = [], [], {}
        for g in range(n):
            if g not in where:
                rep.append(g)
                for h in H:
                    where[mul[g][h]] = len(rep) - 1
        c = r.choice(lin)
        ph = [sum(f[e] for f, e in zip(c, el)) % 4 for el in els]
        out.append([[[where[mul[g][x]], ph[g]] for x in rep] for g in range(n)])
    if "Q8" in name and r.random() < .7:
        q = {0: [[0, 0], [1, 0]], 1: [[0, 1], [1, 3]], 2: [[1, 0], [0, 2]], 3: [[1, 3], [0, 3]]}
        # i = diag(i, -i), j: e0 -> e1, e1 -> -e0, k = i j: e0 -> -i e1, e1 -> -i e0
        i = name.split("x").index("Q8")
        out.append([[[x[0], (x[1] + (0 if el[i][0] == 1 else 2)) % 4] for x in q[el[i][1]]] for el in els])
        r.shuffle(out)
    return out


def sum_of(acts):
    res = []
    for g in range(len(acts[0])):
        u, off = [], 0
        for a in acts:
            u += [[x[0] + off, x[1]] for x in a[g]]
            off += len(a[g])
        res.append(u)
    return res
