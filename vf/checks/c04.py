"""conditional_jpt(e) is equivalent to the tree with evidence e."""
import json

import numpy as np

from vf import gen, ref
from vf.checks.c03 import check_marginal

PROPERTY = 'C04'
RULE = ('Random learned tree and a chain of one to three conditionings with random evidence of positive probability '
        '(through dict/label/value assignments); leaf priors, leaf supports, stored marginals, infer with and without '
        'further evidence and posteriors of every conditioned tree are compared with the mixture model of the original '
        'tree under the accumulated evidence; the original is compared with its snapshot afterwards, also after the '
        'conditional tree was modified. Non-trivial: conditioning changes the leaf weights.')
CASES = {'quick': 2500, 'thorough': 25000}
REQUIRED = ['conditionings', 'second conditionings', 'leaves removed', 'queries with further evidence',
            'marginals', 'modified conditional trees', 'conditioned on a point']
ASSUMPTIONS = ['evidence of positive probability; single points of continuous variables weight leaves by density']


def snapshot(t):
    return json.dumps(t.to_json(), sort_keys=True, default=str)


def points(ctx, rng, w, t, mix):
    """a single point of a continuous variable, perhaps with events of others, as the condition"""
    v = [v for v in w.variables if v.numeric]
    if not v:
        return
    v = v[int(rng.integers(len(v)))]
    m, s = ref.affine(v)
    leaf = mix.leaves[int(rng.integers(len(mix.leaves)))]
    cont, _ = leaf.dists[v.name].pieces()
    if not cont or any(l.dists[v.name].pieces()[1] for l in mix.leaves):
        return
    lo, hi, _ = cont[int(rng.integers(len(cont)))]
    x = lo + (hi - lo) * rng.uniform(.2, .8)
    label = x * s + m
    x = (label - m) / s
    others = [u for u in w.variables if u is not v]
    eu, ev = gen.event(rng, w, t, gen.subset(rng, [u.name for u in others], 0, 2)) if others and rng.random() < .5 else ({}, {})
    wts = np.array([l.prior * mix.leaf_p(l, ev) * ref.leaf_density(l.dists[v.name], x) for l in mix.leaves])
    if not wts.sum() > 0 or np.any((wts > 0) & (wts < 1e-8 * wts.sum())) or ev and (ref.ill_conditioned(mix, ev) or mix.p(ev) < 1e-5):
        return
    wts /= wts.sum()
    c = t.conditional_jpt(t.bind({v.name: label, **eu}))
    ctx.count('conditioned on a point')
    for l, wt in zip(mix.leaves, wts):
        have = c.leaves.get(l.leaf.idx)
        ctx.check((have is not None) == (wt > 0), 'leaves of a tree conditioned on a point', lambda: f'leaf {l.leaf.idx} ({wt}) at {v.name} = {label}, {eu}')
        if have is not None:
            ctx.close(have.prior, wt, 'prior of a leaf of a tree conditioned on a point', lambda: f'leaf {l.leaf.idx} at {v.name} = {label}, {eu}', rel=1e-5, abs_=2e-6)
            d = have.distributions[v]
            ctx.check(d.is_dirac_impulse() and abs(float(d.expectation()) - label) <= 1e-6 * (s + abs(m) + abs(label)), 'variable that is given is not an impulse',
                      lambda: f'{v.name} = {label}: {d.cdf.pfmt()}')
    for _ in range(2):
        if not others:
            return
        qu, qv = gen.event(rng, w, t, gen.subset(rng, [u.name for u in others], 1, 3))
        if ref.ill_conditioned(mix, ref.meet(ev, qv)):
            continue
        e = sum(wt * mix.leaf_p(l, ref.meet(ev, qv)) / mix.leaf_p(l, ev) for l, wt in zip(mix.leaves, wts) if wt > 0)
        ctx.close(c.infer(dict(qu)), e, 'tree conditioned on a point answers differently', lambda: f'{qu} given {v.name} = {label}, {eu}', rel=1e-5, abs_=2e-6)


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    before = snapshot(t)
    if rng.random() < .4:
        points(ctx, rng, w, t, mix)
    names0 = [id(v) for v in t.variables]
    acc = {}
    cur = t
    for step in range(int(rng.integers(1, 4))):
        names = gen.subset(rng, w.names, 1 if step else 0, 3)
        rare = not step and rng.random() < .2
        eu, ev = gen.rare(rng, w, t, names) if rare else gen.event(rng, w, t, names)
        joint = ref.meet(acc, ev)
        pe = mix.p(joint)
        err = ref.rounding(mix, joint) if rare else 1e-9 / max(pe, 1e-300)
        if pe < (1e-40 if rare else 1e-5) or err > 1e-2 or ref.ill_conditioned(mix, joint) or ref.ill_conditioned(mix, ev) \
                or (cur is not t and ref.ill_conditioned(ref.Mixture(cur), ev)):
            continue
        wts = mix.weights(joint)
        wts /= wts.sum()
        if any(0 < x < 1e-8 for x in wts):
            continue
        tol = dict(rel=1e-5, abs_=2e-6 + err)
        arg = gen.as_arg(rng, cur, eu)
        prev = snapshot(cur) if cur is not t else None
        c = cur.conditional_jpt(arg)
        if prev is not None:
            ctx.check(snapshot(cur) == prev, 'conditioning changes a conditional tree', '', evidence=str(eu))
        ctx.count('conditionings')
        if cur is not t:
            ctx.count('second conditionings')
        acc = joint
        # the posterior over the leaves
        for m, wt in zip(mix.leaves, wts):
            leaf = c.leaves.get(m.leaf.idx)
            if wt == 0:
                ctx.check(leaf is None or leaf.prior < 1e-9, 'leaf without probability remains', f'leaf {m.leaf.idx}',
                          evidence=str(acc))
                ctx.count('leaves removed')
                continue
            ctx.check(leaf is not None, 'leaf of positive probability is missing', f'leaf {m.leaf.idx} ({wt})',
                      evidence=str(acc), world=ctx.note)
            ctx.close(leaf.prior, wt, 'prior of a leaf', f'leaf {m.leaf.idx}', evidence=str(acc), **tol)
            for n, e in acc.items():
                v = w.var(n)
                d = leaf.distributions[v]
                if v.numeric:
                    out = ref.complement(e)
                    ctx.check(ref.PL(d.cdf).p(out) < 1e-7, 'mass outside of the evidence', f'{n}: {e}',
                              cdf=d.cdf.pfmt())
                else:
                    out = set(ref.labels_of(v)) - e
                    ctx.check(not out or sum(float(np.asarray(d._params)[ref.labels_of(v).index(l)]) for l in out) < 1e-9,
                              'mass outside of the evidence', f'{n}: {e}')
        ctx.close(sum(l.prior for l in c.leaves.values()), 1, 'leaf priors of a conditional tree do not sum to one')
        ctx.check(all(x in c.allnodes for x in c.leaves), 'leaves unreachable', '')
        # structure: walking down from the root reaches every leaf
        seen, stack = set(), [c.root]
        while stack:
            n = stack.pop()
            if n.idx in c.leaves:
                seen.add(n.idx)
            else:
                ctx.check(n.idx in c.innernodes and len(n.children) == len(n.splits) and n.children,
                          'inconsistent decision node', str(n.idx))
                stack.extend(n.children)
        ctx.check(seen == set(c.leaves), 'leaves unreachable from the root', f'{seen} vs {set(c.leaves)}')
        # queries
        for _ in range(3):
            qu, qv = gen.event(rng, w, t, gen.subset(rng, w.names, 1), point=True)
            exp, _ = mix.cond(qv, acc)
            ctx.close(c.infer(gen.as_arg(rng, c, qu)), exp, 'conditional tree answers differently', query=str(qu),
                      evidence=str(acc), world=ctx.note, **tol)
        fu, fv = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        ef = ref.meet(acc, fv)
        pf = mix.p(ef)
        if pf > 1e-4 and pf / pe > 1e-4:
            qu, qv = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 3))
            ctx.close(c.infer(dict(qu), dict(fu)), mix.cond(qv, ef)[0], 'conditional tree with further evidence',
                      query=str(qu), evidence=str(acc), further=str(fu), **tol)
            ctx.count('queries with further evidence')
        for v in w.variables:
            if eu and rng.random() < .4:
                check_marginal(ctx, mix, t, w, v, c.priors[v], wts, acc, 'marginals stored in a conditional tree', tol)
                ctx.count('marginals')
        if rng.random() < .3:
            n = str(rng.choice(w.names))
            check_marginal(ctx, mix, t, w, w.var(n), c.posterior([n])[n], wts, acc, 'posterior of a conditional tree', tol)
        if len(wts) > 1 and np.ptp(wts - np.array([m.prior for m in mix.leaves])) > 1e-6:
            ctx.nontrivial(len(t.leaves), tuple(round(float(x), 7) for x in wts[:5]))
        cur = c
    if cur is not t:
        ctx.check([id(v) for v in cur.variables] == names0, 'variables of a conditional tree', '')
        # the conditional tree is independent of the original one
        ctx.check(snapshot(t) == before, 'conditioning changes the original tree', '', world=ctx.note)
        f = {i: float(rng.uniform(.1, 1)) for i in cur.leaves}
        old = {i: l.prior for i, l in cur.leaves.items()}
        r = cur.multiply_by_leaf_prior(f)
        z = sum(old[i] * f[i] for i in f)
        for i, l in cur.leaves.items():
            ctx.close(l.prior, old[i] * f[i] / z, 'multiply_by_leaf_prior', abs_=1e-12, rel=1e-9)
        ctx.check(r is cur, 'multiply_by_leaf_prior', 'result')
        for l in cur.leaves.values():
            l.samples += 1
            for v in w.variables:
                if not v.numeric and l.distributions[v]._params is not None:
                    np.asarray(l.distributions[v]._params)[...] = 0
        for d in cur.innernodes.values():
            if not d.variable.numeric:
                for s in d.splits:
                    s.clear()
        ctx.count('modified conditional trees')
        ctx.check(snapshot(t) == before, 'conditional tree shares state with the original one', '', world=ctx.note)
