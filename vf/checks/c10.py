"""Splits are impurity-optimal."""
import numpy as np

from vf import core, gen, learnref, ref

PROPERTY = 'C10'
RULE = ('Random data, targets, features, hyper-parameters (also inverted impurities). At every decision node of the '
        'learned tree the samples are routed by the bare splits, the improvement of every admissible split of every '
        'feature is recomputed by two-pass variances and Gini impurities, and the chosen split must attain the '
        'maximum and the required improvement; at every leaf that is not limited by depth, no admissible split may '
        'exceed the required improvement. Non-trivial: a node with more than one admissible split.')
CASES = {'quick': 2000, 'thorough': 50000}
REQUIRED = ['decision nodes', 'leaves', 'single numeric target', 'symbolic targets', 'symbolic features', 'integer features']
ASSUMPTIONS = ['full variable dependencies (the default)']


def case(ctx):
    rng = ctx.rng
    if rng.random() < .03:
        w = gen.make_world(rng)     # sometimes large
    else:
        w = gen.make_world(rng, n=int(rng.choice([4, 8, 15, 30, 60])), nvars=int(rng.integers(2, 6)))
    if rng.random() < .15:
        for v in w.variables:
            if v.symbolic and rng.random() < .5:
                v.settings['invert_impurity'] = True
                ctx.count('inverted impurity', int(v.invert_impurity))
    h = gen.hyper(rng, w)
    if rng.random() < .5:       # at most one numeric target
        num = [v for v in w.variables if not v.symbolic]
        keep = [v for v in w.variables if v.symbolic] + num[:1]
        if keep:
            h['targets'] = keep
            h['features'] = [v for v in w.variables if v not in keep or rng.random() < .5] or list(w.variables)
    t = gen.make_tree(rng, w, learn_kw={'close_convex_gaps': bool(rng.random() < .5)}, **h)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t)
    X = w.values()
    ix = {v.name: i for i, v in enumerate(w.variables)}
    crit = learnref.Criterion(X, w.variables, t.targets, t.features)
    rows, depth = learnref.route(t, X, ix)
    msl = learnref.required(h, w.n)
    mi = h.get('min_impurity_improvement') or 0
    tol = 1e-7
    for idx, r in rows.items():
        if not len(r):
            continue
        inner = idx in t.innernodes
        multi = any(crit.multi(r, f) for f in crit.features)
        best = {v: crit.best(r, msl, v) for v in (('mean', 'running') if multi else ('mean',))}
        if inner:
            node = t.innernodes[idx]
            f = ix[node.variable.name]
            c, s = learnref.children(node)[0]
            left = learnref.mask(X[r, f], s)
            ctx.count('decision nodes')
            ctx.count('symbolic features', int(node.variable.symbolic))
            ctx.count('integer features', int(node.variable.integer))
            ctx.count('single numeric target', int(len(crit.num) == 1))
            ctx.count('symbolic targets', int(len(crit.sym) > 0))
            ctx.check(f in crit.features, 'split on a variable that is no feature', node.variable.name)
            ctx.check(0 < left.sum() < len(r), 'split without effect', f'{node.variable.name}: {int(left.sum())} of {len(r)}')
            ok = {}
            for v, b in best.items():
                g = crit.gain(r, left, f, v)
                ok[v] = g >= b[0] - tol and g >= mi - tol
            msg = (f'{node.variable.name} {node.splits}: {crit.gain(r, left, f)} < {best["mean"]}, required {mi} '
                   f'({len(r)} samples)')
            if not ok['mean'] and ok.get('running'):
                ctx.soft('variance improvements of several numeric targets are not averaged', msg)
            else:
                ctx.check(ok['mean'], 'chosen split is not optimal', msg, world=ctx.note, targets=[v.name for v in t.targets],
                          features=[v.name for v in t.features])
            if best['mean'][1] is not None:
                ctx.nontrivial(idx, len(r), f, round(best['mean'][0], 9))
        else:
            ctx.count('leaves')
            if depth[idx] >= t.max_depth:
                ctx.count('leaves limited by depth')
                continue
            ok = {v: b[0] < mi + tol for v, b in best.items()}
            msg = f'leaf of {len(r)} samples, best split {best["mean"]}, required {mi}'
            if not ok['mean'] and ok.get('running'):
                ctx.soft('variance improvements of several numeric targets are not averaged', msg)
            else:
                ctx.check(ok['mean'], 'leaf in spite of an admissible split', msg, world=ctx.note)
            if best['mean'][1] is not None:
                ctx.count('leaves with rejected splits')
                ctx.nontrivial(idx, len(r), 'leaf', round(best['mean'][0], 9))
