"""Reference for learning: routing of samples by the bare splits of a tree, and the split criterion."""
import numpy as np

from vf import ref


def children(node):
    """[(child, reference set)] of a decision node, read from the bare split objects (value space)"""
    out = []
    for c, s in zip(node.children, node.splits):
        out.append((c, ref.from_numberset(s) if node.variable.numeric else set(int(x) for x in s)))
    return out


def mask(x, s):
    if isinstance(s, set):
        return np.isin(x, list(s))
    m = np.zeros(len(x), dtype=bool)
    for lo, hi, lc, hc in s:
        m |= ((x >= lo) if lc else (x > lo)) & ((x <= hi) if hc else (x < hi))
    return m


def route(tree, X, ix):
    """-> {node idx: rows}, {node idx: depth}; every row goes to every child whose set contains it"""
    rows, depth = {}, {}
    stack = [(tree.root, np.arange(len(X)), 0)]
    while stack:
        node, r, d = stack.pop()
        rows[node.idx], depth[node.idx] = r, d
        if node.idx in tree.innernodes:
            for c, s in children(node):
                stack.append((c, r[mask(X[r, ix[node.variable.name]], s)], d + 1))
    return rows, depth


class Criterion:
    """Relative impurity improvement of a split.

    numeric part: mean over the numeric targets other than the split variable of the relative reduction of
    variance; symbolic part: relative reduction of the mean normalised Gini impurity. Weighted by the shares
    of numeric (incl. integer) and symbolic targets.
    """

    def __init__(self, X, variables, targets, features):
        self.X = X
        self.vars = list(variables)
        ix = {v.name: i for i, v in enumerate(variables)}
        self.num = [ix[v.name] for v in variables if v in targets and not v.symbolic]
        self.sym = [ix[v.name] for v in variables if v in targets and v.symbolic]
        self.features = [ix[v.name] for v in variables if v in features]
        self.w = len(self.num) / (len(self.num) + len(self.sym))
        self.size = {j: len(ref.labels_of(self.vars[j])) for j in self.sym}
        self.inv = {j: bool(self.vars[j].invert_impurity) for j in self.sym}

    def gini(self, rows):
        if not self.sym:
            return 0.
        out = []
        for j in self.sym:
            k = self.size[j]
            if k == 1:
                out.append(0.)
                continue
            c = np.bincount(self.X[rows, j].astype(int), minlength=k) / len(rows)
            g = (np.sum(c * c) - 1) / (1. / k - 1)
            out.append(1 - g if self.inv[j] else g)
        return float(np.mean(out))

    def candidates(self, rows, f):
        x = self.X[rows, f]
        u = np.unique(x)
        if len(u) < 2:
            return
        if self.vars[f].symbolic:
            for v in u:
                yield float(v), x == v
        else:
            for v in u[:-1]:
                yield float(v), x <= v

    def gain(self, rows, left, f, variant='mean'):
        l, r = rows[left], rows[~left]
        n, nl, nr = len(rows), len(l), len(r)
        parts = []
        for j in self.num:
            if j == f:
                continue
            y = self.X[rows, j]
            if np.all(y == y[0]):
                continue
            vt = np.var(y)
            parts.append((vt - (np.var(self.X[l, j]) * nl + np.var(self.X[r, j]) * nr) / n) / vt)
        g = 0.
        if variant == 'mean':
            g += self.w * (float(np.mean(parts)) if parts else 0.)
        else:       # the running mean as it is computed by compute_var_improvements (see known_findings.json)
            a = 0.
            for i, p in enumerate(parts):
                a = a * i + p / (i + 1)
            g += self.w * a
        gt = self.gini(rows)
        if gt:
            g += (1 - self.w) * (gt - self.gini(l) * nl / n - self.gini(r) * nr / n) / gt
        return g

    def multi(self, rows, f):
        """more than one numeric target contributes"""
        return sum(j != f and np.any(self.X[rows, j] != self.X[rows[0], j]) for j in self.num) > 1

    def best(self, rows, msl, variant='mean'):
        out = (-np.inf, None, None)
        for f in self.features:
            for v, left in self.candidates(rows, f):
                nl = int(left.sum())
                if nl < msl or len(rows) - nl < msl:
                    continue
                g = self.gain(rows, left, f, variant)
                if g > out[0]:
                    out = (g, f, v)
        return out


def required(h, n):
    m = h.get('min_samples_leaf', 1)
    return max(1, int(m * n)) if isinstance(m, float) and 0 < m < 1 else m
