"""Random worlds: variables, data, hyper-parameters, trees, events."""
import os

import numpy as np
import pandas as pd

from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.distributions import Numeric, NumericType, SymbolicType, IntegerType, Bool
from jpt.trees import JPT
from jpt.variables import NumericVariable, SymbolicVariable, IntegerVariable

from vf import ref

_uid = [0]


def uid(prefix):
    _uid[0] += 1
    return f'{prefix}_{_uid[0]}'


NUMERIC_PATTERNS = ['gauss', 'uniform', 'grid', 'few', 'clusters', 'big', 'tiny', 'exp', 'const', 'intlike']
NUMERIC_W = np.array([3, 2, 3, 2, 2, 1, 1, 1, .7, 1.5])


def numeric_column(rng, z, pattern=None):
    n = len(z)
    pattern = pattern or rng.choice(NUMERIC_PATTERNS, p=NUMERIC_W / NUMERIC_W.sum())
    mu = rng.normal(0, 3, size=z.max() + 1) if rng.random() < .7 else np.zeros(z.max() + 1)
    m = mu[z]
    if pattern == 'gauss':
        x = rng.normal(m, rng.choice([.3, 1., 2.]))
    elif pattern == 'uniform':
        x = m + rng.uniform(-1, 1, n)
    elif pattern == 'grid':
        x = np.round(rng.normal(m, 1.5), int(rng.integers(0, 2)))
    elif pattern == 'few':
        vals = np.round(rng.normal(0, 5, int(rng.integers(2, 6))), 2)
        x = vals[(z * int(rng.integers(0, 3)) + rng.integers(0, len(vals), n)) % len(vals)]
    elif pattern == 'clusters':
        x = 100. * z + rng.normal(0, 1, n)
    elif pattern == 'big':
        x = 1e5 + rng.normal(m, 1.) * 1e4
    elif pattern == 'tiny':
        x = rng.normal(m, 1.) * 1e-3
    elif pattern == 'exp':
        x = rng.exponential(1 + z) ** 2
    elif pattern == 'const':
        x = np.full(n, np.round(rng.normal(0, 3), 2))
    else:
        x = rng.integers(-3, 4, n).astype(float) + z
    return np.asarray(x, dtype=np.float64) + 0.


def make_var(rng, name, kind, col, **settings):
    if kind == 'numeric':
        return NumericVariable(name, Numeric, **settings)
    if kind == 'scaled':
        dom = NumericType(uid(f'{name}_N'), col)
        s = float(np.std(np.array(col)))
        ref.SCALING[dom] = (float(np.mean(np.array(col))), s if s else 1.)
        return NumericVariable(name, dom, **settings)
    settings.pop('precision', None)
    settings.pop('blur', None)
    if kind == 'bool':
        return SymbolicVariable(name, Bool, **settings)
    if kind == 'symbolic':
        return SymbolicVariable(name, SymbolicType(uid(f'{name}_S'), labels=col), **settings)
    if kind == 'integer':
        lo, hi = col
        return IntegerVariable(name, IntegerType(uid(f'{name}_I'), int(lo), int(hi)), **settings)
    raise ValueError(kind)


class World:
    """variables + data (label space)"""

    def __init__(self):
        self.variables, self.cols, self.kinds, self.z, self.big = [], {}, {}, None, None

    @property
    def names(self):
        return [v.name for v in self.variables]

    def var(self, name):
        return next(v for v in self.variables if v.name == name)

    @property
    def n(self):
        return len(self.z)

    def rows(self):
        return [[self.cols[v.name][i] for v in self.variables] for i in range(self.n)]

    def columns(self):
        return [list(self.cols[v.name]) for v in self.variables]

    def df(self):
        d = {}
        for v in self.variables:
            k = self.kinds[v.name]
            c = self.cols[v.name]
            if k in ('numeric', 'scaled'):
                d[v.name] = np.array(c, dtype=np.float64)
            elif k == 'integer':
                d[v.name] = np.array(c, dtype=np.int64)
            elif k == 'bool':
                d[v.name] = np.array(c, dtype=bool)
            else:
                d[v.name] = pd.Series(list(c), dtype=object)
        return pd.DataFrame(d, columns=self.names)

    def values(self):
        """value space, computed independently of jpt's own preprocessing"""
        out = np.zeros((self.n, len(self.variables)))
        for j, v in enumerate(self.variables):
            c = self.cols[v.name]
            if v.numeric:
                m, s = ref.affine(v)
                out[:, j] = (np.array(c, dtype=float) - m) / s if (m, s) != (0., 1.) else np.array(c, dtype=float)
            else:
                lab = ref.labels_of(v)
                idx = {l: i for i, l in enumerate(lab)}
                out[:, j] = [idx[x] for x in c]
        return out


LABELSETS = [
    lambda k: [chr(97 + i) for i in range(k)],
    lambda k: ['l%d' % (k - i) for i in range(k)],
    lambda k: list(range(k)),
    lambda k: [3 * i - 4 for i in range(k)],
    lambda k: [chr(90 - i) * (1 + i % 2) for i in range(k)],
]


BIG = float(os.environ.get('VF_BIG', .02))


def make_world(rng, n=None, nvars=None, kinds=None, patterns=None, precision=True, min_imp=False):
    w = World()
    big = None
    if n is None and nvars is None and kinds is None and rng.random() < BIG:
        # sizes beyond the usual ones: many samples, many variables, many labels
        big = w.big = str(rng.choice(['long', 'wide', 'labels']))
        if big == 'long':
            n, nvars = int(rng.integers(300, 2500)), int(rng.integers(1, 4))
        elif big == 'wide':
            n, nvars = int(rng.choice([10, 30, 80])), int(rng.integers(7, 13))
        else:
            n, nvars = int(rng.choice([30, 80, 150])), int(rng.integers(1, 4))
            kinds = list(rng.choice(['symbolic', 'integer', 'numeric'], size=nvars, p=[.45, .4, .15]))
    n = int(n if n is not None else rng.choice([5, 10, 20, 40, 80, 150], p=[.08, .12, .25, .25, .2, .1]))
    nvars = int(nvars if nvars is not None else rng.integers(1, 6))
    if kinds is None:
        kinds = list(rng.choice(['numeric', 'scaled', 'symbolic', 'bool', 'integer'], size=nvars,
                                p=[.3, .17, .25, .08, .2]))
    ncls = int(rng.integers(1, 5))
    w.z = rng.integers(0, ncls, n)
    w.z[0] = w.z.max()
    for j, kind in enumerate(kinds):
        name = f'{kind[0]}{j}'
        s = {}
        if kind in ('numeric', 'scaled'):
            if precision and rng.random() < .4:
                s['precision'] = float(rng.choice([.001, .01, .05, .2]))
        if min_imp and rng.random() < .3:
            s['min_impurity_improvement'] = float(rng.choice([.01, .05, .2]))
        if kind in ('numeric', 'scaled'):
            col = numeric_column(rng, w.z, patterns[j] if patterns else None)
            v = make_var(rng, name, kind, col, **s)
            data = [float(x) for x in col]
        elif kind == 'bool':
            p = rng.uniform(0, 1, ncls)
            data = [bool(rng.random() < p[c]) for c in w.z]
            v = make_var(rng, name, kind, None, **s)
        elif kind == 'symbolic':
            k = int(rng.integers(8, 26)) if big == 'labels' else int(rng.integers(1, 6))
            labels = LABELSETS[rng.integers(len(LABELSETS))](k)
            P = rng.dirichlet(np.full(k, .6), size=ncls)
            data = [labels[rng.choice(k, p=P[c])] for c in w.z]
            v = make_var(rng, name, kind, labels, **s)
        else:
            lo = int(rng.choice([-3, 0, 1, 5, -10]))
            hi = lo + (int(rng.integers(15, 120)) if big == 'labels' else int(rng.integers(0, 9)))
            spread = rng.integers(0, hi - lo + 1, ncls)
            data = [int(np.clip(lo + spread[c] + rng.integers(-1, 2), lo, hi)) for c in w.z]
            v = make_var(rng, name, kind, (lo, hi), **s)
        w.variables.append(v)
        w.cols[name] = data
        w.kinds[name] = kind
    return w


def count_big(ctx, w):
    if w.big:
        ctx.count({'long': 'worlds of many samples', 'wide': 'worlds of many variables', 'labels': 'worlds of many labels'}[w.big])


def hyper(rng, w, discriminative=True):
    h = {}
    r = rng.random()
    if r < .75:
        h['min_samples_leaf'] = int(max(1, rng.choice([1, 2, 3, 5, max(1, w.n // 8), max(1, w.n // 4)])))
    else:
        h['min_samples_leaf'] = float(rng.choice([.02, .1, .2, .34]))
    if w.n > 200:
        h['min_samples_leaf'] = int(rng.integers(w.n // 40, w.n // 3))
    if rng.random() < .3:
        h['max_depth'] = int(rng.integers(1, 5))
    if rng.random() < .25:
        h['min_impurity_improvement'] = float(rng.choice([.01, .05, .1]))
    if discriminative and len(w.variables) > 1 and rng.random() < .4:
        k = int(rng.integers(1, len(w.variables)))
        idx = rng.permutation(len(w.variables))
        h['targets'] = [w.variables[i] for i in sorted(idx[:k])]
        if rng.random() < .4:
            h['features'] = [w.variables[i] for i in sorted(idx[k:][:int(rng.integers(1, len(idx) - k + 1))])]
    return h


def make_tree(rng, w, how=None, learn_kw=None, cls=JPT, **h):
    t = cls(variables=w.variables, **h)
    how = how or rng.choice(['df', 'rows', 'columns'])
    kw = dict(learn_kw or {})
    if how == 'df':
        t.learn(w.df(), **kw)
    elif how == 'rows':
        t.learn(rows=w.rows(), **kw)
    else:
        t.learn(columns=w.columns(), **kw)
    return t


def world_tree(rng, small=False, gaps=None, **kw):
    w = make_world(rng, **kw)
    h = hyper(rng, w)
    lk = {'close_convex_gaps': bool(rng.random() < .6) if gaps is None else gaps}
    t = make_tree(rng, w, learn_kw=lk, **h)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    w.h['learn'] = lk
    return w, t


def describe(w, t=None):
    d = {'n': w.n, 'kinds': dict(w.kinds), 'hyper': getattr(w, 'h', None)}
    if t is not None:
        d['leaves'] = len(t.leaves)
        d['depth'] = t.depth()
    return d


# -- events -----------------------------------------------------------------------------------------
def interesting_points(rng, w, tree, var):
    """label-space points at which numeric things happen: data, splits, knots"""
    col = np.array(w.cols[var.name], dtype=float)
    m, s = ref.affine(var)
    pts = [float(x) for x in rng.choice(col, size=4)]
    if tree is not None:
        for nd in tree.innernodes.values():
            if nd.variable.name == var.name and nd.splits:
                for sp in nd.splits:
                    for e in (sp.lower, sp.upper):
                        if np.isfinite(e):
                            pts.append(float(e * s + m))
        leaves = list(tree.leaves.values())
        for leaf in [leaves[i] for i in rng.choice(len(leaves), size=min(3, len(leaves)), replace=False)]:
            cdf = leaf.distributions[var].cdf
            for i in cdf.intervals:
                if np.isfinite(i.upper):
                    pts.append(float(i.upper * s + m))
    lo, hi = float(col.min()), float(col.max())
    span = (hi - lo) or 1.
    pts += [lo, hi, lo - .3 * span, hi + .3 * span]
    pts += [float(x) for x in rng.uniform(lo - .1 * span, hi + .1 * span, 6)]
    return pts


def numeric_event(rng, w, tree, var, allow_inf=True, point=False, multi=.25):
    """-> (user-level label-space value, reference set in value space)"""
    pts = interesting_points(rng, w, tree, var)
    parts = []
    k = 1
    if rng.random() < multi:
        k = int(rng.integers(2, 4))
    for _ in range(k):
        a, b = sorted(float(x) for x in rng.choice(pts, 2))
        if point and rng.random() < .5:
            b = a
        lc, hc = bool(rng.random() < .6), bool(rng.random() < .6)
        if b - a <= 1e-9 * (1e-3 + max(abs(a), abs(b))):     # no intervals at the level of rounding errors
            b = a
        if a == b:
            if not point:
                b = a + abs(a) * .1 + 1e-3
            else:
                lc = hc = True
        if allow_inf and rng.random() < .12:
            a, lc = -np.inf, False
        if allow_inf and rng.random() < .12:
            b, hc = np.inf, False
        parts.append((a, b, lc, hc))
    m, s = ref.affine(var)
    val = ref.normalise([((a - m) / s, (b - m) / s, lc, hc) for a, b, lc, hc in parts])
    if k == 1:
        a, b, lc, hc = parts[0]
        user = ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC)
        if lc and hc and a != b and rng.random() < .3:
            user = [a, b]
    else:
        user = RealSet([ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC) for a, b, lc, hc in parts])
    return user, val


def discrete_event(rng, var, nonempty=True):
    labs = ref.labels_of(var)
    k = int(rng.integers(1, len(labs) + 1))
    sub = [labs[i] for i in rng.choice(len(labs), size=k, replace=False)]
    user = set(sub)
    if k == 1 and rng.random() < .5:
        user = sub[0]
    elif var.symbolic and rng.random() < .2:
        user = list(sub)
    elif var.integer and rng.random() < .3:
        a, b = min(sub), max(sub)
        return [a, b], set(range(a, b + 1))
    return user, set(sub)


def event(rng, w, tree, names, **kw):
    """-> ({name: user value}, {name: reference set})"""
    user, val = {}, {}
    for nm in names:
        v = w.var(nm)
        if v.numeric:
            user[nm], val[nm] = numeric_event(rng, w, tree, v, **kw)
        else:
            user[nm], val[nm] = discrete_event(rng, v)
    return user, val


def rare_event(rng, t, var):
    """a narrow part of the support of some leaf"""
    m, s = ref.affine(var)
    leaves = list(t.leaves.values())
    pl = ref.PL(leaves[int(rng.integers(len(leaves)))].distributions[var].cdf)
    cont, _ = pl.pieces()
    if not cont:
        return None
    lo, hi, _ = cont[int(rng.integers(len(cont)))]
    d = (hi - lo) * 10 ** rng.uniform(-7, -2)
    a = (lo + rng.uniform(.1, .8) * (hi - lo)) * s + m
    b = a + d * s
    if not (b - a) > 2e-9 * (1e-3 + max(abs(a), abs(b))) or not abs((b - a) / (d * s) - 1) < 1e-3:
        return None
    val = ref.normalise([((a - m) / s, (b - m) / s, True, True)])
    return ref.to_numberset([(a, b, True, True)]), val


def rare(rng, w, t, names):
    """-> an event like event() with narrow intervals, which has a tiny probability"""
    user, val = {}, {}
    for n in names:
        v = w.var(n)
        r = rare_event(rng, t, v) if v.numeric else None
        if r is None:
            r = numeric_event(rng, w, t, v) if v.numeric else discrete_event(rng, v)
        user[n], val[n] = r
    return user, val


def subset(rng, names, lo=0, hi=None):
    names = list(names)
    hi = len(names) if hi is None else min(hi, len(names))
    k = int(rng.integers(min(lo, hi), hi + 1))
    return [names[i] for i in rng.choice(len(names), size=k, replace=False)]


def as_arg(rng, tree, user):
    """The same assignment through different entry points of the API."""
    r = rng.random()
    if r < .45:
        return dict(user)
    if r < .7:
        return tree.bind(dict(user))
    if r < .85:
        return {tree.varnames[k]: v for k, v in user.items()}
    return tree.bind(dict(user)).value_assignment()
