"""Samples come from the distribution they are drawn from."""
import math
import random

import numpy as np
from scipy import stats

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.base.sampling import RouletteWheelSampler, wchoice, wchoicei, wchoiced, wsample, wsamplei

from vf import canon, dists, gen, ref

PROPERTY = 'C21'
RULE = ('Samples are drawn from random distributions (with gaps, point masses, zero probabilities, after histories of '
        'operations), learned, pruned and conditioned trees, number sets and weighted populations. Every sample must lie in the '
        'support (and in the evidence); relative frequencies of labels, point masses, intervals and joint events and the empirical '
        'CDF are compared with the probabilities read from CDFs, label probabilities and leaves by bounds (Bernstein, DKW, chi-square of '
        'the probability transform) which a correct sampler exceeds with probability below 1e-12 per comparison. '
        'Non-trivial: a distribution with at least two outcomes, a tree with at least two leaves.')
CASES = {'quick': 5000, 'thorough': 60000}
REQUIRED = ['samples', 'numeric distributions', 'point masses', 'discrete distributions', 'zero probabilities', 'trees', 'conditioned trees', 'joint events',
            'rows in the support', 'rows within the evidence', 'number sets', 'weighted populations', 'frequencies', 'empirical CDFs',
            'probability transforms', 'single samples', 'empty samples', 'repeated draws', 'values without repetition']
ASSUMPTIONS = ['the generators of numpy and of the standard library are sound', 'bounded number sets']
LOG = math.log(2e13)


def seed(rng):
    s = int(rng.integers(0, 2 ** 31))
    np.random.seed(s)
    random.seed(s)
    return s


def frequency(ctx, count, n, p, what, **detail):
    """Bernstein's inequality"""
    ctx.count('frequencies')
    p = min(1., max(0., p))
    bound = math.sqrt(2 * p * (1 - p) * LOG / n) + 2 * LOG / (3 * n)
    ctx.check(abs(count / n - p) <= bound + 1e-9, f'frequency of {what} is not its probability',
              lambda: f'{count}/{n} = {count / n:.5f} at probability {p:.5f} (bound {bound:.5f})', **detail)


def ecdf(ctx, x, F, Fm, what, tol=0.):
    """Dvoretzky-Kiefer-Wolfowitz; F, Fm: the CDF and its left limit, tol: rounding of x"""
    x = np.sort(x)
    n = len(x)
    bound = math.sqrt(LOG / (2 * n)) + 1e-9
    u, idx, cnt = np.unique(x, return_index=True, return_counts=True)
    if len(u) > 400:
        sel = np.unique(np.linspace(0, len(u) - 1, 400).astype(int))
        u, idx, cnt = u[sel], idx[sel], cnt[sel]
    for v, i, c in zip(u, idx, cnt):
        v = float(v)
        ctx.check((i + c) / n <= F(v + tol) + bound and i / n >= Fm(v - tol) - bound, f'empirical CDF of {what} is off',
                  lambda: f'{i / n}..{(i + c) / n} at {v}: {Fm(v)}..{F(v)}')
    ctx.count('empirical CDFs')


def transform(ctx, rng, x, pl, what):
    """the probability transform of the samples is uniform"""
    n = len(x)
    k = min(20, n // 400)
    if k < 3:
        return
    lo, hi = np.array([pl.Fm(v) for v in x]), np.array([pl.F(v) for v in x])
    u = lo + rng.random(n) * np.maximum(0, hi - lo)
    c = np.bincount(np.clip((u * k).astype(int), 0, k - 1), minlength=k)
    ctx.count('probability transforms')
    ctx.check(stats.chisquare(c).pvalue > 1e-15, f'probability transform of {what} is not uniform', lambda: str(c))


def numeric(ctx, rng):
    T, x = dists.numeric_type(rng)
    d = dists.numeric(rng, T, x, depth=int(rng.integers(0, 3)))
    pl = ref.PL(d.cdf)
    ctx.note = {'distribution': d.cdf.pfmt()}
    n = int(rng.choice([300, 2000, 10000], p=[.5, .3, .2]))
    m, s = dists.scaling(T)
    seed(rng)
    label = rng.random() < .5
    xs = np.array(list(d.sample(n) if label else d._sample(n)), dtype=float)
    ctx.check(xs.shape == (n,), 'wrong number of samples', str(xs.shape))
    ctx.check(np.all(np.isfinite(xs)), 'sample is not finite', '')
    if label and (m, s) != (0., 1.):
        xs = (xs - m) / s
    exact = not label or (m, s) == (0., 1.)
    ctx.count('numeric distributions')
    ctx.count('samples', n)
    tol = 0. if exact else 1e-9 * max(1e-3, float(np.abs(xs).max()))
    atoms = pl.atoms(max(1e-9, pl.jump_tol()))
    sup = [(lo, hi) for lo, hi, f in pl.segs if ref.coeffs(f)[0] and np.isfinite(lo) and np.isfinite(hi)] + [(a, a) for a in pl.knots
                                                                                                          if pl.F(a) > pl.Fm(a)]
    for v in xs:
        v = float(v)
        ctx.check(any(lo - tol <= v <= hi + tol for lo, hi in sup), 'sample lies outside of the support', lambda: f'{v} not in {sup}')
    for a, p in atoms:
        frequency(ctx, int((np.abs(xs - a) <= tol).sum()), n, pl.F(a + tol) - pl.Fm(a - tol), 'a point mass', at=a, cdf=d.cdf.pfmt())
        ctx.count('point masses')
    for _ in range(6):
        ivs, _ = dists.restriction(rng, pl, point=0)
        if exact:
            frequency(ctx, sum(1 for v in xs if ref.contains(ivs, float(v))), n, pl.p(ivs), 'an interval', interval=str(ivs), cdf=d.cdf.pfmt())
    ecdf(ctx, xs, pl.F, pl.Fm, 'numeric samples', tol)
    if exact:
        distinct(ctx, xs, [pl], 'a distribution')
        transform(ctx, rng, xs, pl, 'numeric samples')
    seed(rng)
    v = float(d._sample_one())
    ctx.check(any(lo <= v <= hi for lo, hi in sup), 'single sample lies outside of the support', lambda: f'{v} not in {sup}')
    ctx.count('single samples')
    ctx.check(len(list(d._sample(0))) == 0, 'sampling nothing gives samples', '')
    ctx.count('empty samples')
    repeat(ctx, rng, lambda: list(d.sample(20)), 'a numeric distribution')
    if len(pl.segs) > 3:
        ctx.nontrivial('numeric', [round(k, 9) for k in pl.knots])


def distinct(ctx, x, pls, what):
    """values repeat at point masses and where a piece has few floating point numbers only"""
    u, c = np.unique(x, return_counts=True)
    rep = [float(v) for v in u[c > 1]]
    if not rep:
        ctx.count('values without repetition', len(u))
        return
    coarse = []         # in steep or point-like pieces values repeat
    for pl in pls:
        for k in pl.knots:
            if np.isfinite(k) and pl.F(k) > pl.Fm(k):
                coarse.append((k, k))
        for lo, hi, f in pl.segs:
            if np.isfinite(lo) and np.isfinite(hi) and hi - lo < 1e-5 * (1e-3 + max(abs(lo), abs(hi))):
                coarse.append((lo, hi))
    odd = [v for v in rep if not any(lo <= v <= hi for lo, hi in coarse)]
    # a rounding of the quantile function maps several numbers to the borders of the pieces
    borders = {k for pl in pls for k in pl.knots}
    odd = [v for v in odd if not any(abs(v - k) <= 1e-9 * (1e-3 + abs(k)) for k in borders)]
    ctx.count('values without repetition', len(u) - len(rep))
    ctx.check(len(odd) <= 2, 'samples repeat values of a continuous part', lambda: f'{what}: {odd[:5]} among {len(x)}')


def repeat(ctx, rng, draw, what):
    """equal random states give equal samples"""
    s = seed(rng)
    a = draw()
    np.random.seed(s)
    random.seed(s)
    b = draw()
    ctx.count('repeated draws')
    ctx.check(str(a) == str(b), f'equal random states give different samples of {what}', lambda: f'{a} and {b}')


def discrete(ctx, rng):
    d, p, labs = dists.discrete(rng)
    ctx.note = {'probabilities': str(p)}
    n = int(rng.choice([300, 2000, 10000], p=[.5, .3, .2]))
    label = rng.random() < .6
    seed(rng)
    xs = list(d.sample(n) if label else d._sample(n))
    ctx.check(len(xs) == n, 'wrong number of samples', str(len(xs)))
    ctx.count('discrete distributions')
    ctx.count('samples', n)
    if not label:
        xs = [labs[int(v)] for v in xs]
    cnt = {}
    for v in xs:
        cnt[v] = cnt.get(v, 0) + 1
    for v in cnt:
        ctx.check(v in p and p[v] > 0, 'sample has probability zero', lambda: f'{v}: {p}')
    for l in labs:
        frequency(ctx, cnt.get(l, 0), n, p[l], 'a label', probabilities=str(p))
        ctx.count('zero probabilities', int(p[l] == 0))
    seed(rng)
    one = d.sample_one() if rng.random() < .5 else labs[int(d._sample_one())]
    ctx.check(one in p and p[one] > 0, 'single sample has probability zero', lambda: f'{one}: {p}')
    ctx.count('single samples')
    ctx.check(len(list(d.sample(0))) == 0, 'sampling nothing gives samples', '')
    ctx.count('empty samples')
    repeat(ctx, rng, lambda: list(d.sample(20)), 'a discrete distribution')
    if sum(1 for v in p.values() if v) > 1:
        ctx.nontrivial('discrete', sorted((str(k), round(v, 9)) for k, v in p.items()))


def trees(ctx, rng):
    w, t = gen.world_tree(rng)
    ctx.note = gen.describe(w, t)
    ev = {}
    r = rng.random()
    if r < .5:
        user, val = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        mix0 = ref.Mixture(t)
        p = mix0.p(val)
        if p > 1e-6 and not ref.ill_conditioned(mix0, val):
            try:
                c = t.conditional_jpt(gen.as_arg(rng, t, user))
            except Unsatisfiability:
                c = None        # decided by C05
            if c is not None:
                t, ev = c, val
                ctx.note['evidence'] = str(user)
                ctx.count('conditioned trees')
    elif r < .6:
        t = t.prune(float(rng.choice([0, .3])))
    ctx.count('trees')
    mix = ref.Mixture(t)
    n = int(rng.choice([200, 1000, 5000], p=[.45, .35, .2]))
    before = canon.tree(t)
    seed(rng)
    S = t.sample(n)
    ctx.check(isinstance(S, np.ndarray) and S.shape == (n, len(w.names)), 'samples have another shape', lambda: str(S.shape))
    ctx.check(canon.tree(t) == before, 'sampling changes the tree', '')
    ctx.count('samples', n)
    cols, tols = {}, {}
    for i, v in enumerate(t.variables):
        if v.numeric:
            m, s = ref.affine(v)
            x = np.array([float(a) for a in S[:, i]])
            ctx.check(np.all(np.isfinite(x)), 'sample is not finite', '')
            cols[v.name] = x if (m, s) == (0., 1.) else (x - m) / s
            tols[v.name] = 0. if (m, s) == (0., 1.) else 1e-9 * max(1e-3, float(np.abs(cols[v.name]).max()))
        else:
            labs = ref.labels_of(v)
            for a in S[:, i]:
                ctx.check(a in labs, 'sample is not a label of its variable', lambda: f'{a} of {v.name}')
            cols[v.name] = list(S[:, i])
    # -- every row lies in the evidence and in the support of a leaf
    for nm, e in ev.items():
        for x in cols[nm]:
            if isinstance(e, list):
                ctx.check(any(lo - tols[nm] <= x <= hi + tols[nm] for lo, hi, _, _ in e) if tols[nm] else ref.contains(e, float(x)),
                          'sample contradicts the evidence', lambda: f'{nm} = {x} not in {e}')
            else:
                ctx.check(x in e, 'sample contradicts the evidence', lambda: f'{nm} = {x} not in {e}')
            ctx.count('rows within the evidence')
    sups = []
    for m in mix.leaves:
        if m.prior <= 0:
            continue
        sup = {}
        for v in mix.vars:
            pl = m.dists[v.name]
            if v.numeric:
                sup[v.name] = [(lo, hi) for lo, hi, f in pl.segs if ref.coeffs(f)[0] and np.isfinite(lo) and np.isfinite(hi)] + \
                              [(a, a) for a in pl.knots if pl.F(a) > pl.Fm(a)]
            else:
                sup[v.name] = {l for l, p in pl.items() if p > 0}
        sups.append(sup)
    for i in rng.choice(n, min(n, 150), replace=False):
        ok = False
        for sup in sups:
            if all(any(lo - tols[nm] <= cols[nm][i] <= hi + tols[nm] for lo, hi in s) if isinstance(s, list) else cols[nm][i] in s
                   for nm, s in sup.items()):
                ok = True
                break
        ctx.check(ok, 'row lies outside of the support of all leaves', lambda: str(S[i]))
        ctx.count('rows in the support')
    # -- frequencies of marginal and joint events
    for _ in range(8):
        names = gen.subset(rng, w.names, 1, 3)
        user, val = gen.event(rng, w, t, names)
        if any(tols.get(nm) for nm in names):
            continue
        hit = np.ones(n, dtype=bool)
        for nm, e in val.items():
            hit &= np.array([ref.contains(e, float(x)) if isinstance(e, list) else x in e for x in cols[nm]])
        frequency(ctx, int(hit.sum()), n, mix.p(val), 'a joint event', event=str(user))
        ctx.count('joint events')
    # -- values of continuous parts never occur twice
    for i in np.flatnonzero([v.numeric for v in t.variables]):
        nm = t.variables[int(i)].name
        if tols[nm]:
            continue
        distinct(ctx, cols[nm], [m.dists[nm] for m in mix.leaves if m.prior > 0], nm)
    # -- mixed marginals
    for v in t.variables:
        if v.numeric:
            def F(x, left=False):
                return sum(m.prior * (m.dists[v.name].Fm(x) if left else m.dists[v.name].F(x)) for m in mix.leaves)
            ecdf(ctx, cols[v.name], F, lambda x: F(x, True), 'a column', tols[v.name])
    # -- the leaves
    if not ev and rng.random() < .3:
        leaf = list(t.leaves.values())[int(rng.integers(0, len(t.leaves)))]
        seed(rng)
        L = leaf.sample(50)
        ctx.check(L.shape == (50, len(w.names)), 'samples of a leaf have another shape', '')
        m = next(m for m in mix.leaves if m.leaf is leaf)
        for i, v in enumerate(t.variables):
            pl = m.dists[v.name]
            if not v.numeric:
                for l in ref.labels_of(v):
                    frequency(ctx, sum(1 for a in L[:, i] if a == l), 50, pl.get(l, 0.), 'a label of a leaf')
    repeat(ctx, rng, lambda: t.sample(10).tolist(), 'a tree')
    ctx.check(t.sample(0).shape == (0, len(w.names)), 'sampling nothing gives samples', '')
    ctx.count('empty samples')
    if len(t.leaves) > 1:
        ctx.nontrivial('tree', sorted(round(m.prior, 9) for m in mix.leaves), str(ev))


def raw(i):
    return ContinuousSet(i[0], i[1], INC if i[2] else EXC, INC if i[3] else EXC)


def sets(ctx, rng):
    pts = np.sort(rng.normal(0, 5, 10)).round(int(rng.choice([0, 3])))
    parts = []
    for _ in range(int(rng.integers(1, 4))):
        a, b = sorted(float(x) for x in rng.choice(pts, 2))
        lc, hc = bool(rng.random() < .5), bool(rng.random() < .5)
        if a == b and rng.random() < .8:
            lc = hc = True
        parts.append((a, b, lc, hc))
    ivs = ref.normalise(parts)
    if not ivs:
        return
    one = len(parts) == 1 and rng.random() < .8
    s = raw(parts[0]) if one else RealSet([raw(i) for i in parts])
    n = int(rng.choice([200, 1000, 5000], p=[.5, .3, .2]))
    seed(rng)
    x = np.array(s.sample(n))
    ctx.count('number sets')
    ctx.count('samples', n)
    ctx.check(x.shape == (n,), 'wrong number of samples', str(x.shape))
    for v in x:
        ctx.check(ref.contains(ivs, float(v)), 'sample lies outside of the set', lambda: f'{v} not in {s}')
    tot = sum(hi - lo for lo, hi, _, _ in ivs)
    for lo, hi, _, _ in ivs:
        p = (hi - lo) / tot if tot else 1 / len(ivs)
        frequency(ctx, int(((x >= lo) & (x <= hi)).sum()), n, p, 'a part of the set', set=str(s))
    if tot:
        mid = float(rng.uniform(ivs[0][0], ivs[-1][1]))
        frequency(ctx, int((x <= mid).sum()), n, sum(max(0., min(hi, mid) - lo) for lo, hi, _, _ in ivs) / tot, 'a half of the set', set=str(s), mid=mid)
    repeat(ctx, rng, lambda: np.array(s.sample(20)).tolist(), 'a number set')
    ctx.nontrivial('set', ivs)


def populations(ctx, rng):
    k = int(rng.integers(1, 8))
    w = rng.random(k) * rng.choice([0, 1, 1], size=k)
    if not w.sum():
        w[0] = 1.
    w = w * float(rng.choice([1 / w.sum(), 1., 10.]))
    pop = ['e%d' % i for i in range(k)]
    n = 400
    ctx.note = {'weights': w.tolist()}
    seed(rng)
    norm = bool(rng.random() < .3)
    r = rng.random()
    if r < .3:
        xs = wsample(pop, list(w), n)
    elif r < .5:
        got = wsamplei(pop, list(w), n)
        ctx.check(all(pop[i] == e for e, i in got), 'index does not belong to the element', str(got[:5]))
        xs = [e for e, _ in got]
    elif r < .7:
        xs = RouletteWheelSampler(pop, list(w), normalize=norm).sample(n)
    elif r < .8:
        xs = [wchoice(pop, list(w)) for _ in range(n)]
    elif r < .9:
        xs = [wchoiced(dict(zip(pop, w))) for _ in range(n)]
    else:
        got = [wchoicei(pop, list(w)) for _ in range(n)]
        ctx.check(all(pop[i] == e for e, i in got), 'index does not belong to the element', str(got[:5]))
        xs = [e for e, _ in got]
    ctx.check(len(xs) == n, 'wrong number of samples', str(len(xs)))
    ctx.count('weighted populations')
    ctx.count('samples', n)
    for e, p in zip(pop, w / w.sum()):
        c = xs.count(e)
        ctx.check(p > 0 or not c, 'element of weight zero is sampled', e)
        frequency(ctx, c, n, float(p), 'an element', weights=w.tolist())


def case(ctx):
    rng = ctx.rng
    f = [numeric, discrete, trees, sets, populations][int(rng.choice(5, p=[.3, .2, .3, .12, .08]))]
    f(ctx, rng)
