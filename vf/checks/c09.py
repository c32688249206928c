"""Hyper-parameters are respected by every learned tree."""
import math

import numpy as np

from jpt.trees import JPT

from vf import gen, learnref, ref

PROPERTY = 'C09'
RULE = ('Random data and random combinations of min_samples_leaf (absolute, relative, larger than the data), max_depth '
        '(0 included), min_impurity_improvement, targets and features (as objects or names, overlapping or not), also '
        'for models that are copied, restored from JSON or refitted; samples are routed by the bare splits, the leaf sizes, depths, '
        'split variables, improvements and the leaf distributions are compared with what the parameters demand. '
        'Non-trivial: a tree with a decision node, or one that a parameter keeps from splitting.')
CASES = {'quick': 1500, 'thorough': 50000}
REQUIRED = ['leaves', 'decision nodes', 'relative leaf sizes', 'depth limits reached', 'depth limit 0', 'required improvements',
            'restricted features', 'restricted targets', 'refitted models', 'restored models', 'copied models', 'names instead of variables',
            'leaf size larger than the data', 'distributions']
ASSUMPTIONS = ['full variable dependencies (the default)', 'a relative leaf size stands for the integral part of the share',
               'the improvement of a split may be judged by either mean of known_findings.json']


def params(rng, w):
    h = {}
    r = rng.random()
    if r < .45:
        h['min_samples_leaf'] = int(rng.choice([1, 2, 3, 5, 8, max(1, w.n // 3), max(1, w.n // 2), w.n, w.n + 5]))
    elif r < .85:
        h['min_samples_leaf'] = float(rng.choice([.001, .01, .05, .1, .2, .25, .34, .5, .9]))
    if rng.random() < .45:
        h['max_depth'] = int(rng.choice([0, 1, 2, 3, 5]))
    if rng.random() < .5:
        h['min_impurity_improvement'] = float(rng.choice([0, .001, .01, .05, .1, .3, .8]))
    if w.n > 200:       # (learning a deep tree takes quadratic time)
        h['min_samples_leaf'] = max(h.get('min_samples_leaf', 0), w.n // 40 if isinstance(h.get('min_samples_leaf', 0), int) else .03)
    m = len(w.variables)
    if rng.random() < .5:
        h['targets'] = [w.variables[i] for i in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    if rng.random() < .5:
        h['features'] = [w.variables[i] for i in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
    if 'targets' in h and 'features' not in h and len(h['targets']) == m:
        del h['targets']        # nothing would be left to split on
    return h


def case(ctx):
    rng = ctx.rng
    if rng.random() < .05:
        w = gen.make_world(rng)     # sometimes large
    else:
        w = gen.make_world(rng, n=int(rng.choice([1, 2, 3, 6, 10, 20, 40, 80, 120])))
    h = params(rng, w)
    tg = list(h.get('targets') or w.variables)
    ft = list(h.get('features') or ([v for v in w.variables if v not in h['targets']] if 'targets' in h else w.variables))
    arg = dict(h)
    for k in ('targets', 'features'):
        if k in arg and rng.random() < .5:
            arg[k] = [v.name for v in arg[k]]
            ctx.count('names instead of variables')
    if rng.random() < .2:
        arg = dict(arg)
        if 'min_impurity_improvement' not in arg:
            arg['min_impurity_improvement'] = None
        if 'max_depth' not in arg:
            arg['max_depth'] = None
    kw = {'close_convex_gaps': bool(rng.random() < .5)}
    t = gen.make_tree(rng, w, learn_kw=kw, **arg)
    how = rng.random()
    if how < .15:
        w2 = [c for c in w.rows()]
        k = [int(i) for i in rng.permutation(w.n)[:max(1, int(w.n * rng.uniform(.3, 1)))]]
        w.z = w.z[k]
        w.cols = {nm: [c[i] for i in k] for nm, c in w.cols.items()}
        t.learn(rows=[w2[i] for i in k], **kw)
        ctx.count('refitted models')
    elif how < .3:
        t = JPT.from_json(t.to_json())
        t.learn(rows=w.rows(), **kw)
        ctx.count('restored models')
    elif how < .45:
        t = t.copy()
        t.learn(rows=w.rows(), **kw)
        ctx.count('copied models')
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t)
    vs = {v.name: v for v in t.variables}
    ctx.check([v.name for v in t.variables] == w.names, 'variables differ', '')
    ctx.check({v.name for v in t.targets} == {v.name for v in tg}, 'targets differ from the passed ones',
              lambda: f'{t.targets} instead of {tg}')
    ctx.check({v.name for v in t.features} == {v.name for v in ft}, 'features differ from the passed ones',
              lambda: f'{t.features} instead of {ft}')
    hp = t.get_hyperparameters_dict()
    ctx.check(hp['min_samples_leaf'] == h.get('min_samples_leaf', 1) and t.min_samples_leaf == hp['min_samples_leaf'],
              'min_samples_leaf is not retained', str(hp['min_samples_leaf']))
    ctx.check(hp['min_impurity_improvement'] == (h.get('min_impurity_improvement') or 0),
              'min_impurity_improvement is not retained', str(hp))
    md = h.get('max_depth')
    md = math.inf if md is None else md
    ctx.check(hp['max_depth'] == md, 'max_depth is not retained', str(hp['max_depth']))
    X = w.values()
    ix = {v.name: i for i, v in enumerate(w.variables)}
    rows, depth = learnref.route(t, X, ix)
    msl = learnref.required(h, w.n)
    mi = h.get('min_impurity_improvement') or 0
    if 'features' in h:
        ctx.count('restricted features')
    if 'targets' in h:
        ctx.count('restricted targets')
    if msl > w.n:
        ctx.count('leaf size larger than the data')
    for idx, leaf in t.leaves.items():
        ctx.count('leaves')
        n = len(rows[idx])
        # the routed samples may differ at scaled split values by rounding, the stored ones may not
        ctx.check(leaf.samples >= min(msl, w.n), 'leaf has too few samples',
                  lambda: f'leaf {idx}: {leaf.samples} samples, {msl} required of {w.n}', hyper=str(w.h))
        ctx.check(n >= min(msl, w.n) or any(ref.affine(v) != (0., 1.) for v in w.variables if v.numeric),
                  'leaf gets too few samples', lambda: f'leaf {idx}: {n} samples, {msl} required of {w.n}', hyper=str(w.h))
        if isinstance(h.get('min_samples_leaf'), float):
            ctx.count('relative leaf sizes')
        ctx.check(depth[idx] <= md, 'branch is deeper than max_depth', lambda: f'leaf {idx}: {depth[idx]} > {md}')
        if depth[idx] == md:
            ctx.count('depth limits reached')
        for v in w.variables:
            ctx.count('distributions')
            ctx.check(vs[v.name] in leaf.distributions, 'leaf has no distribution of a variable', f'leaf {idx}: {v.name}')
            d = leaf.distributions[vs[v.name]]
            ctx.check(isinstance(d, vs[v.name].domain), 'distribution of another domain', f'leaf {idx}: {v.name}: {type(d)}')
            if v.numeric:
                ctx.close(d._p(ref.to_numberset([(-np.inf, np.inf, False, False)])), 1, 'distribution is not normalised', v.name)
            else:
                ctx.close(sum(d.probabilities), 1, 'distribution is not normalised', v.name)
        ctx.check(len(leaf.distributions) == len(w.variables), 'leaf has distributions of other variables', f'leaf {idx}')
    if md == 0:
        ctx.count('depth limit 0')
        ctx.check(len(t.leaves) == 1, 'tree with max_depth 0 is split', str(len(t.leaves)))
    for v in w.variables:
        ctx.check(vs[v.name] in t.priors, 'tree has no prior distribution of a variable', v.name)
        if not v.numeric:
            cnt = np.bincount(X[:, ix[v.name]].astype(int), minlength=len(ref.labels_of(v))) / w.n
            ctx.check(np.allclose(t.priors[vs[v.name]].probabilities, cnt, atol=1e-12),
                      'prior distribution is not that of the data', v.name)
    crit = learnref.Criterion(X, w.variables, tg, ft)
    fn = {v.name for v in ft}
    for idx, node in t.innernodes.items():
        ctx.count('decision nodes')
        ctx.check(node.variable.name in fn, 'split on a variable that is no feature', f'{node.variable.name} not in {fn}')
        r = rows[idx]
        f = ix[node.variable.name]
        left = learnref.mask(X[r, f], learnref.children(node)[0][1])
        if mi and 0 < left.sum() < len(r):
            g = max(crit.gain(r, left, f, 'mean'), crit.gain(r, left, f, 'running'))
            ctx.count('required improvements')
            ctx.check(g >= mi - 1e-6, 'split without the required improvement', lambda: f'node {idx}: {g} < {mi}', hyper=str(w.h))
    if t.innernodes or any(k in h for k in ('max_depth', 'min_samples_leaf', 'min_impurity_improvement')):
        ctx.nontrivial(str(w.h), len(t.leaves), w.n)
