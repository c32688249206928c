"""Likelihoods equal the joint density, row by row."""
import numpy as np
import pandas as pd

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet
from jpt.trees import JPT
from jpt.variables import LabelAssignment, ValueAssignment, VariableMap

from vf import canon, gen, ref
from vf.checks.c08 import probes

PROPERTY = 'C22'
RULE = ('Random trees (learned, conditioned, pruned, restored) and rows: training data, samples, values on, next to and '
        'off the knots of the leaves. The oracle sums prior times product of the CDF slopes (numeric) and label '
        'probabilities (discrete), both read from the leaves, point masses being replaced as documented; the same rows '
        'are passed in other batches, orders and formats, densities are compared with the probabilities of small boxes. '
        'Non-trivial: two leaves or more and rows of positive and zero likelihood.')
CASES = {'quick': 2500, 'thorough': 60000}
REQUIRED = ['rows', 'rows of positive likelihood', 'rows of likelihood zero', 'rows on knots', 'impulse rows', 'batches', 'boxes',
            'partial densities', 'impulse densities', 'training rows', 'label assignments', 'value assignments', 'explicit distances',
            'derived trees', 'data frames', 'rejected densities', 'leaf densities', 'leaf masses', 'minimal distances']
ASSUMPTIONS = ['the density of a distribution with jumps and a continuous part is that of its continuous part, as documented for PDFs',
               'magnitudes of numbers are below 2^53']


class Model:
    """densities of the leaves, read from CDFs and label probabilities"""

    def __init__(self, t):
        self.t = t
        self.mix = ref.Mixture(t)

    def leaf(self, m, row, names=None):
        """[density factors], with None for a point mass at the value"""
        out = []
        for v in self.mix.vars:
            if names is not None and v.name not in names:
                continue
            d, x = m.dists[v.name], row[v.name]
            if v.numeric:
                if len(d.segs) == 2:
                    out.append((v.name, None if x == d.segs[1][0] else 0.))
                else:
                    out.append((v.name, ref.leaf_density(d, x)))
            else:
                out.append((v.name, list(d.values())[int(x)]))
        return out

    def density(self, row, replace, names=None):
        tot = 0.
        for m in self.mix.leaves:
            f = 1.
            fs = self.leaf(m, row, names)
            if any(p == 0 for _, p in fs):
                continue
            for nm, p in fs:
                f *= replace(nm) if p is None else p
            tot += m.prior * f
        return tot


def knots(t, v):
    return [float(k) for l in t.leaves.values() for i in l.distributions[v].cdf.intervals for k in (i.lower, i.upper) if np.isfinite(k)]


def make_rows(rng, w, t, k):
    """label rows and value rows"""
    labs, vals = probes(rng, w, t, k)
    labs = [list(r) for r in labs]
    vals = np.array(vals)
    tr, n_on = w.rows(), 0
    X = w.values()
    for i in range(k):
        r = rng.random()
        if r < .45:
            j = int(rng.integers(0, w.n))
            labs[i], vals[i] = list(tr[j]), X[j]
            continue
        for c, v in enumerate(w.variables):
            if v.numeric and rng.random() < .6:
                ks = knots(t, v)
                x = ks[int(rng.integers(0, len(ks)))]
                q = rng.random()
                if q < .25:
                    x = float(np.nextafter(x, -np.inf))
                elif q < .5:
                    x = float(np.nextafter(x, np.inf))
                elif q < .75:
                    y = ks[int(rng.integers(0, len(ks)))]
                    x = (x + y) / 2
                m, s = ref.affine(v)
                labs[i][c] = x if (m, s) == (0., 1.) else x * s + m
                n_on += 1
                vals[i, c] = x if (m, s) == (0., 1.) else (labs[i][c] - m) / s
            elif not v.numeric and rng.random() < .6:
                j = int(rng.integers(0, w.n))
                labs[i][c], vals[i, c] = tr[j][c], X[j, c]
    return labs, vals, n_on


def frame(w, labs):
    d = {}
    for c, v in enumerate(w.variables):
        col = [r[c] for r in labs]
        k = w.kinds[v.name]
        d[v.name] = (np.array(col, dtype=np.float64) if v.numeric else np.array(col, dtype=np.int64) if k == 'integer'
                     else np.array(col, dtype=bool) if k == 'bool' else pd.Series(col, dtype=object))
    return pd.DataFrame(d, columns=w.names)


def array(labs):
    a = np.empty((len(labs), len(labs[0])), dtype=object)
    for i, r in enumerate(labs):
        a[i, :] = r
    return a


def derive(ctx, rng, w, t):
    r = rng.random()
    if r < .12:
        names = gen.subset(rng, w.names, 1, 2)
        user, ev = gen.event(rng, w, t, names)
        try:
            c = t.conditional_jpt(gen.as_arg(rng, t, user), fail_on_unsatisfiability=False)
        except Unsatisfiability:
            return t
        if c is None:
            return t
        t = c
    elif r < .2:
        t = t.prune(float(rng.choice([0, .2, .5])))
    elif r < .26:
        orig, t = t, JPT.from_json(t.to_json())
        for v in orig.variables:
            if v.domain in ref.SCALING:
                ref.SCALING[t.varnames[v.name].domain] = ref.SCALING[v.domain]
    elif r < .32:
        t = t.copy()
    else:
        return t
    ctx.count('derived trees')
    return t


def rounding(model, v, x):
    """whether x lies within rounding distance of a knot of one of the leaves"""
    for m in model.mix.leaves:
        for k in m.dists[v.name].knots:
            if abs(k - x) <= 1e-12 * max(1e-3, abs(k)):
                return True
    return False


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    learned = t
    gaps = w.h['learn']['close_convex_gaps']
    t = derive(ctx, rng, w, t)
    derived = t is not learned
    ctx.note = gen.describe(w, t)
    model = Model(t)
    dist = {v.name: float(t.minimal_distances[v]) for v in t.variables if v in t.minimal_distances}
    if not derived:
        X = w.values()
        for c, v in enumerate(w.variables):
            if v.numeric:
                u = np.unique(X[:, c])
                want = float(np.diff(u).min()) if len(u) > 1 else 2.
                # the internal values are computed here and there: they may differ by rounding, whole values may coincide
                r = 1e-12 * (float(np.abs(u).max()) + abs(ref.affine(v)[0] / ref.affine(v)[1])) if ref.affine(v) != (0., 1.) else 0.
                if not r or want > 1e3 * r:
                    ctx.close(dist[v.name], want, 'minimal distance of the training values', v.name, rel=1e-9, abs_=4 * r)
                    ctx.count('minimal distances')
            else:
                ctx.check(v.name not in dist, 'a discrete variable has a minimal distance', v.name)
    k = int(rng.integers(8, 25))
    labs, vals, n_on = make_rows(rng, w, t, k)
    # values next to a knot in a scaled domain may fall on either side of it
    rows = [dict(zip(w.names, r)) for r in vals]
    sure = np.array([not any(ref.affine(v) != (0., 1.) and rounding(model, v, r[v.name]) for v in w.variables if v.numeric) for r in rows])
    ctx.count('rows on knots', n_on)

    def expect(replace):
        return np.array([model.density(r, replace) for r in rows])

    def default(nm):
        return 2. / dist[nm] if dist else 1.

    def compare(got, e, what):
        ctx.check(isinstance(got, np.ndarray) and got.shape == e.shape, f'{what} has another shape', str(got))
        for i in np.nonzero(sure)[0]:
            ctx.close(float(got[i]), float(e[i]), f'{what} is not the density of the row', lambda: str(labs[i]), rel=1e-9, abs_=1e-12,
                      row=str(labs[i]), values=str(vals[i].tolist()))

    e = expect(default)
    df = frame(w, labs)
    before = df.copy(deep=True)
    got = t.likelihood(df)
    ctx.count('data frames')
    ctx.check(df.equals(before) and list(df.dtypes) == list(before.dtypes), 'likelihood changes the data frame', '')
    compare(got, e, 'likelihood')
    ctx.count('rows', k)
    ctx.count('rows of positive likelihood', int((e > 0).sum()))
    ctx.count('rows of likelihood zero', int((e == 0).sum()))
    for r in rows:
        if any(p is None for m in model.mix.leaves for _, p in model.leaf(m, r)):
            ctx.count('impulse rows')
    # -- the result of a row does not depend on the batch, its order or format
    a = array(labs)
    b = t.likelihood(a)
    ctx.check(np.array_equal(got, b), 'likelihood depends on the format', lambda: f'{got} and {b}')
    ctx.check(all(x == y for r, s in zip(a, labs) for x, y in zip(r, s)), 'likelihood changes the data', '')
    b = t.likelihood([list(r) for r in labs])
    ctx.check(np.array_equal(got, b), 'likelihood depends on the format', lambda: f'{got} and {b}')
    perm = rng.permutation(k)
    b = t.likelihood(array([labs[i] for i in perm]))
    ctx.check(np.array_equal(got[perm], b), 'likelihood depends on the order of rows', lambda: f'{got[perm]} and {b}')
    i = int(rng.integers(0, k))
    for sel in ([i], [i, i], sorted(rng.choice(k, k // 2, replace=False).tolist())):
        b = t.likelihood(array([labs[j] for j in sel]))
        ctx.check(np.array_equal(got[sel], b), 'likelihood depends on other rows', lambda: f'{got[sel]} and {b}')
        ctx.count('batches')
    # -- explicit distances and scaling
    if any(v.numeric for v in w.variables):
        scale = float(rng.choice([.5, 2., 3.]))
        md = VariableMap({v: float(rng.choice([.1, .5, 2.])) for v in t.variables if v.numeric}, variables=t.variables)
        mine = {v.name: x for v, x in md.items()}
        q = rng.random()
        if q < .3:
            compare(t.likelihood(df, dirac_scaling=scale), expect(lambda nm: scale / dist[nm] if dist else 1.), 'scaled likelihood')
        elif q < .6:
            compare(t.likelihood(df, dirac_scaling=scale, min_distances=md), expect(lambda nm: scale / mine[nm]), 'likelihood with distances')
        else:
            compare(t.likelihood(df, min_distances=VariableMap(variables=t.variables)), expect(lambda nm: 1.), 'likelihood without distances')
        ctx.count('explicit distances')
    # -- training samples are possible
    if not derived:
        l = t.likelihood(w.df())
        ctx.check(np.all(l > 0) and np.all(np.isfinite(l)), 'training sample has no likelihood',
                  lambda: f'{[(w.rows()[i], float(l[i])) for i in np.nonzero(~(l > 0))[0][:3]]}')
        ctx.count('training rows', w.n)
    densities(ctx, rng, w, t, model, labs, rows, sure)
    masses(ctx, rng, w, t, model)
    boxes(ctx, rng, w, t, model, labs, rows, sure, got, dist)
    if len(t.leaves) > 1 and (e > 0).any() and (e == 0).any():
        ctx.nontrivial([round(float(x), 9) for x in e])


def densities(ctx, rng, w, t, model, labs, rows, sure):
    """JPT.pdf() of partial assignments"""
    for _ in range(4):
        i = int(rng.integers(0, len(rows)))
        if not sure[i]:
            continue
        names = gen.subset(rng, w.names, 0, len(w.names))
        r, lab = rows[i], dict(zip(w.names, labs[i]))
        value = rng.random() < .5
        A = (ValueAssignment if value else LabelAssignment)(variables=t.variables)
        for nm in names:
            v = t.varnames[nm]
            x = r[nm] if value else lab[nm]
            if not v.numeric and value:
                x = int(x)
            if rng.random() < .4:
                x = ContinuousSet(x, x) if v.numeric else {x}
            A[v] = x
        ctx.count('value assignments' if value else 'label assignments')
        before = str(A)
        got = t.pdf(A)
        ctx.check(str(A) == before, 'pdf changes its argument', '')
        e = model.density(r, lambda nm: np.inf, names)
        if e == np.inf:
            ctx.count('impulse densities')
            ctx.check(got == np.inf, 'density at a point mass is not infinite', lambda: f'{got} at {A}')
        else:
            ctx.close(float(got), float(e), 'pdf is not the density of the assignment', lambda: str(A), rel=1e-9, abs_=1e-12, row=str(labs[i]))
        ctx.count('partial densities')
        # the factors of the single leaves; an impulse counts 1 or the given scaling over distance
        md = VariableMap({v: float(rng.choice([.1, .5, 2.])) for v in t.variables if v.numeric}, variables=t.variables) if rng.random() < .5 else None
        sc = float(rng.choice([.5, 2., 3.]))
        args = {} if not md else {'dirac_scaling': sc, 'min_distances': md}
        for m in model.mix.leaves:
            e = 1.
            for nm, f in model.leaf(m, r, names):
                e *= (sc / md[t.varnames[nm]] if md else 1.) if f is None else f
            ctx.close(float(m.leaf.probability(A, **args)), e, 'probability of a leaf is not the product of its densities', lambda: f'{A} in leaf {m.leaf.idx}', rel=1e-9, abs_=1e-12)
            ctx.count('leaf densities')
        ctx.check(str(A) == before, 'probability() of a leaf changes its argument', '')
    user, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 3))
    A = t.bind(dict(user))
    if rng.random() < .5:
        A = A.value_assignment()
    for m in model.mix.leaves:
        if not blurred(m, ev):
            ctx.close(float(m.leaf.probability(A)), model.mix.leaf_p(m, ev), 'probability of an event in a leaf', lambda: f'{A} in leaf {m.leaf.idx}', rel=1e-6, abs_=1e-7)
    num = [v for v in t.variables if v.numeric]
    dis = [v for v in t.variables if not v.numeric and len(ref.labels_of(v)) > 1]
    bad = None
    if num and rng.random() < .5:
        bad = {num[0]: ContinuousSet(0, 1)}
    elif dis:
        bad = {dis[0]: set(ref.labels_of(dis[0])[:2])}
    if bad:
        try:
            p = t.pdf(LabelAssignment(bad, variables=t.variables))
        except ValueError:
            ctx.count('rejected densities')
        else:
            ctx.check(False, 'density of a set is not rejected', f'{bad}: {p}')


def boxes(ctx, rng, w, t, model, labs, rows, sure, got, dist):
    """probability of a small box to the right of the row against its likelihood"""
    for i in rng.permutation(len(rows))[:6]:
        if not sure[i] or not got[i] > 0:
            continue
        r = rows[i]
        if any(p is None for m in model.mix.leaves for _, p in model.leaf(m, r)):
            continue
        q, vol = {}, 1.
        for nm, v in zip(w.names, t.variables):
            if not v.numeric:
                q[nm] = labs[i][w.names.index(nm)]
                continue
            x = r[nm]
            ks = [k for m in model.mix.leaves for k in m.dists[nm].knots]
            right = min([k for k in ks if k > x], default=x + 1)
            h = min((right - x) / 2, 1.)
            m, s = ref.affine(v)
            if h < 1e-7 * max(1, abs(x)) or (any(abs(k - x) <= 1e-9 * max(1, abs(x)) for k in ks)):
                break
            lo, hi = (x, x + h) if (m, s) == (0., 1.) else (x * s + m, (x + h) * s + m)
            q[nm] = [float(lo), float(hi)]
            vol *= h
        else:
            if vol < 1e-12:
                continue
            p = t.infer(q)
            ctx.close(p / vol, float(got[i]), 'density is not the probability of a small box over its volume', lambda: str(q), rel=1e-6 / min(1, vol) ** .1,
                      abs_=1e-10 / vol)
            ctx.count('boxes')


def blurred(m, ev):
    """whether the event ends within a segment of the width of rounding errors (data that are a few ULPs apart)"""
    for nm, e in ev.items():
        if not isinstance(e, list):
            continue
        for lo, hi, _ in m.dists[nm].segs:
            tol = 1e-9 * (1 + abs(lo))
            if hi - lo < tol and any(lo - tol <= x <= hi + tol for i in e for x in i[:2]):
                return True
    return False


def masses(ctx, rng, w, t, model):
    """the factors of the single leaves for sets, also for very narrow intervals"""
    for _ in range(2):
        _, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, len(w.names)))
        for nm in w.names:
            v = t.varnames[nm]
            if v.numeric and rng.random() < .4:
                m, s = ref.affine(v)
                x = (float(rng.choice(gen.interesting_points(rng, w, t, v))) - m) / s + float(rng.choice([0., 0., .01, .3]))
                d = float(10 ** rng.uniform(-8, -1))
                if x + d > x:
                    ev[nm] = [(x, x + d, bool(rng.random() < .5), bool(rng.random() < .5))]
        A = ValueAssignment(variables=t.variables)
        for nm, e in ev.items():
            v = t.varnames[nm]
            A[v] = ref.to_numberset(e) if v.numeric else {i for i, l in enumerate(ref.labels_of(v)) if l in e}
        before = str(A)
        for m in model.mix.leaves:
            if blurred(m, ev):
                continue
            ctx.close(float(m.leaf.probability(A)), model.mix.leaf_p(m, ev), 'probability of an event in a leaf is not the product of its masses',
                      lambda: f'{A} in leaf {m.leaf.idx}', rel=1e-6, abs_=2e-6)
        ctx.check(str(A) == before, 'probability changes its argument', '')
        ctx.count('leaf masses')
