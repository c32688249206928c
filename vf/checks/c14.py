"""Merging distributions is taking their mixture."""
import json

import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC

from vf import dists, gen, ref
from vf.checks.c11 import sane

PROPERTY = 'C14'
RULE = ('One to six random operands (numeric with jumps, plateaus, identical or disjoint supports and common knots, impulses; symbolic; boolean; '
        'integer; the same object several times), random weights with zeros and very unequal ones, merged, '
        're-merged, permuted and updated; every probability of the result is compared with the weighted sum of those of '
        'the operands. Non-trivial: at least two operands of positive weight that differ.')
CASES = {'quick': 14000, 'thorough': 100000}
REQUIRED = ['numeric merges', 'symbolic merges', 'integer merges', 'updates', 'permuted operands', 'zero weights', 'unequal weights',
            'merges with point masses', 'merges of impulses', 'common knots', 'merges of merges', 'rejected weights', 'repeated operands']
ASSUMPTIONS = ['operands are normalised distributions of one domain']


def weights(ctx, rng, k):
    r = rng.random()
    w = rng.dirichlet(np.full(k, float(rng.choice([.3, 1, 5]))))
    if r < .2 and k > 1:
        w[rng.choice(k, size=int(rng.integers(1, k)), replace=False)] = 0
        if w.sum() <= 0:
            w[0] = 1
        ctx.count('zero weights')
    elif r < .35 and k > 1:
        w[int(rng.integers(k))] *= 1e-6
        ctx.count('unequal weights')
    elif r < .5:
        w[:] = 1
    w = w / w.sum()
    return [float(x) for x in w]


def state(d):
    return json.dumps(d.to_json(), default=str)


def relate(rng, d, T):
    """a distribution that shares knots with d"""
    pl = ref.PL(d.cdf)
    for _ in range(4):
        ivs, user = dists.restriction(rng, pl, point=0)
        if pl.p(ivs) > 1e-3 and not dists.weak(pl, ivs):
            return d._crop(user)
    return d.copy()


def numeric(ctx, rng):
    T, x = dists.numeric_type(rng)
    k = int(rng.choice([1, 2, 2, 3, 4, 6]))
    ds = []
    for i in range(k):
        r = rng.random()
        if ds and r < .3:
            ds.append(relate(rng, ds[int(rng.integers(len(ds)))], T))
            ctx.count('common knots')
        elif ds and r < .4:
            ds.append(ds[int(rng.integers(len(ds)))])
            ctx.count('repeated operands')
        else:
            d = dists.dirac(rng, T, x) if r > .85 else dists.numeric(rng, T, x, depth=int(rng.integers(0, 3)))
            ctx.count('merges of impulses', int(d.is_dirac_impulse()))
            ds.append(d)
    w = weights(ctx, rng, k)
    pls = [ref.PL(d.cdf) for d in ds]
    before = [state(d) for d in ds]
    update = k == 2 and rng.random() < .5
    w0 = list(w)
    if update:
        ctx.count('updates')
        c = ds[0].copy()
        r = c.update(ds[1], w[1])
        ctx.check(r is c, 'update() does not return the distribution', '')
    else:
        r = T.merge(ds, w)
        ctx.check(w == w0, 'merge changes the weights', '')
    ctx.count('numeric merges')
    ctx.check([state(d) for d in ds] == before, 'merge changes its operands', '')
    ctx.check(type(r) is T, 'merge yields another type', str(type(r)))
    ctx.note = {'operands': [p.segs and len(p.segs) for p in pls], 'weights': w, 'update': update}
    pr = ref.PL(r.cdf)
    sane(ctx, pr, 'merge')
    if any(p.atoms(1e-9) for p in pls):
        ctx.count('merges with point masses')
    steep = max([1] + [abs(ref.coeffs(f)[0]) for p in pls for _, _, f in p.segs])
    big = max(abs(q) for p in pls for q in p.knots)
    tol = 1e-7 + 4e-15 * steep * big * k

    def expect(a):
        return sum(wi * p.p(a) for wi, p in zip(w, pls))

    def compare(r, what):
        for _ in range(8):
            a, ua = dists.restriction(rng, pls[int(rng.integers(k))], point=.2)
            # knots within rounding distance of each other
            und = 0.
            for e in {e for iv in a for e in iv[:2] if np.isfinite(e)}:
                dl = 1e-12 * max(1., abs(e))
                if any(0 < abs(q - e) <= dl for p in pls for q in p.knots):
                    und += sum(wi * (p.F(e + dl) - p.Fm(e - dl)) for wi, p in zip(w, pls))
            ctx.close(r._p(ua), expect(a), 'merge is not the mixture', lambda: f'{what}: {ua}', abs_=tol + und,
                      weights=w, operands=[d.cdf.pfmt() for d in ds], merged=r.cdf.pfmt())
        for q in pls[int(rng.integers(k))].knots[:12]:
            at = expect([(q, q, True, True)])
            if not any(0 < abs(o - q) <= 1e-12 * max(1, abs(q)) for p in pls for o in p.knots):
                ctx.close(r._p(q), at if at > 1e-9 else 0, 'point mass of the merge differs', lambda: f'{what}: {q}', abs_=tol + 2e-9 * k)
    compare(r, 'merge')
    ctx.close(r._p(ContinuousSet(-np.inf, np.inf, EXC, EXC)), 1, 'merge is not normalised', '', abs_=1e-8)
    if sum(wi > 0 for wi in w) > 1 and len(set(before)) > 1:
        ctx.nontrivial(k, len(pr.segs), [round(x, 6) for x in w])
    if k > 1 and not update and rng.random() < .4:
        ctx.count('permuted operands')
        o = [int(i) for i in rng.permutation(k)]
        compare(T.merge([ds[i] for i in o], [w[i] for i in o]), 'permuted merge')
    if k > 2 and not update and w[0] + w[1] > 1e-3 and rng.random() < .5:
        ctx.count('merges of merges')
        s = w[0] + w[1]
        a = T.merge(ds[:2], [w[0] / s, w[1] / s])
        rest = [s] + w[2:]
        z = sum(rest)
        compare(T.merge([a] + ds[2:], [v / z for v in rest]), 'nested merge')
    if rng.random() < .1:
        ctx.count('rejected weights')
        for bad in ([v * 1.1 for v in w], [float('nan')] * k):
            try:
                T.merge(ds, bad)
            except ValueError:
                continue
            ctx.check(False, 'illegal weights are accepted', str(bad))
        illegal_update(ctx, ds[0], ds[-1])


def illegal_update(ctx, d, o):
    for bad in (-.25, 1.25, float('nan')):
        c = d.copy()
        try:
            c.update(o, bad)
        except ValueError:
            ctx.check(c == d, 'a rejected update changes the distribution', '')
            continue
        ctx.check(False, 'illegal weights are accepted', f'update {bad}')


def discrete(ctx, rng):
    kind = rng.choice(['symbolic', 'integer', 'bool'], p=[.5, .35, .15])
    T = dists.domain(rng, kind)
    k = int(rng.choice([1, 2, 2, 3, 5]))
    items = [dists.discrete_of(rng, T) for _ in range(k)]
    if k > 1 and rng.random() < .2:
        items[1] = items[0]
        ctx.count('repeated operands')
    ds = [d for d, _, _ in items]
    labs = items[0][2]
    w = weights(ctx, rng, k)
    before = [[float(v) for v in d.probabilities] for d in ds]
    name = 'integer' if kind == 'integer' else 'symbolic'
    ctx.count(f'{name} merges')
    ctx.note = {'kind': str(kind), 'weights': w, 'operands': before}
    want = {l: sum(wi * p[l] for wi, (_, p, _) in zip(w, items)) for l in labs}
    if k == 2 and rng.random() < .5:
        ctx.count('updates')
        c = ds[0] if ds[0] is ds[1] and rng.random() < .5 else ds[0].copy()
        same = c is ds[1]
        r = c.update(ds[1], w[1])
        ctx.check(r is c, 'update() does not return the distribution', '')
        if same:
            before[0] = before[1] = [float(v) for v in c.probabilities]
    else:
        r = T.merge(ds, w)
    ctx.check([[float(v) for v in d.probabilities] for d in ds] == before, 'merge changes its operands', '')
    ctx.check(type(r) is type(ds[0]), 'merge yields another type', str(type(r)))
    for l in labs:
        ctx.close(r.p(l), want[l], 'merge is not the mixture', lambda: f'{l}', abs_=1e-9)
    if k > 1:
        o = [int(i) for i in rng.permutation(k)]
        r2 = T.merge([items[i][0] for i in o], [w[i] for i in o]) if not (ds[0] is ds[1]) else None
        if r2 is not None:
            ctx.count('permuted operands')
            for l in labs:
                ctx.close(r2.p(l), want[l], 'merge depends on the order', lambda: f'{l}', abs_=1e-9)
    if sum(wi > 0 for wi in w) > 1:
        ctx.nontrivial(str(kind), k, len(labs), [round(v, 6) for v in w])
    if rng.random() < .2:
        r.probabilities[:] = .5
        ctx.check([[float(v) for v in d.probabilities] for d in ds if d is not r] ==
                  [b for b, d in zip(before, ds) if d is not r], 'merge shares parameters with its operands', '')
    if rng.random() < .1:
        ctx.count('rejected weights')
        for bad in ([v * 1.1 for v in w],):
            try:
                T.merge(ds, bad)
            except ValueError:
                continue
            ctx.check(False, 'illegal weights are accepted', str(bad))
        illegal_update(ctx, ds[0], ds[-1])


def case(ctx):
    if ctx.rng.random() < .65:
        numeric(ctx, ctx.rng)
    else:
        discrete(ctx, ctx.rng)
