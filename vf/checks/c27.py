"""Sequential trees compose per-step models consistently."""
import json

import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.sequential_trees import SequentialJPT
from jpt.trees import JPT
from jpt.variables import LabelAssignment

from vf import canon, gen, learnref, ref

PROPERTY = 'C27'
RULE = ('Random sequences (of numeric, symbolic, integer and boolean columns, with periodic, persistent or no temporal dependence, of '
        'different lengths) are learned with windows of two to four steps. The template must equal the tree that is learned from '
        'windows unrolled row by row (structure, leaf distributions, priors, point-mass weights), the transition model the relative '
        'frequencies of consecutive leaves of the rows routed by the bare splits. The marginals of sequences with evidence (omitted, as '
        'mapping, as labels, as values) are compared with exact forward-backward sums over the leaves read from the template; leaves '
        'without mass get a tenth of the smallest positive mass, as documented. Further: one-step sequences and independent steps equal '
        'conditional trees, reversed chains give reversed marginals, impossible evidence is rejected, the template and arguments stay '
        'unchanged, refitted and restored models answer alike. Non-trivial: a template with at least two leaves.')
CASES = {'quick': 500, 'thorough': 20000}
REQUIRED = ['templates', 'template leaves', 'transition entries', 'marginals', 'steps with evidence', 'steps without evidence', 'sequences of one step',
            'sequences of more than ten steps', 'leaves without mass', 'independent steps', 'reversed chains', 'impossible evidence',
            'impossible sequences', 'refitted models', 'restored models', 'queries of steps', 'point masses', 'longer windows', 'repeated queries', 'templates with targets']
ASSUMPTIONS = ['the model is the chain of transition factors and conditional leaf priors that ground() documents',
               'leaves without mass in a chain are smoothed (normalized(zeros=.1)), which the code documents as intended']


def make_sequences(rng, w):
    """row indices of several sequences with some temporal dependence"""
    n = w.n
    order = [int(i) for i in rng.permutation(n)]
    how = rng.random()
    if how < .35:       # persistent
        order.sort(key=lambda i: (w.z[i], i))
    elif how < .7:      # periodic
        groups = {}
        for i in order:
            groups.setdefault(int(w.z[i]), []).append(i)
        order, ks = [], sorted(groups)
        while any(groups.values()):
            for k in ks:
                if groups[k]:
                    order.append(groups[k].pop())
    cuts = [0]
    m = int(rng.integers(1, 4))
    for _ in range(m - 1):
        c = int(rng.integers(4, max(5, n // m)))
        if cuts[-1] + c + 4 < n:
            cuts.append(cuts[-1] + c)
    cuts.append(n)
    return [order[a:b] for a, b in zip(cuts, cuts[1:])]


def forward_backward(trans, phis):
    """exact marginals of a chain"""
    T = len(phis)
    f, b = [phis[0]], [np.ones_like(phis[0])]
    for t in range(1, T):
        x = (f[-1] @ trans) * phis[t]
        s = x.sum()
        f.append(x / s if s > 0 else x)
    for t in range(T - 2, -1, -1):
        x = trans @ (b[0] * phis[t + 1])
        s = x.sum()
        b.insert(0, x / s if s > 0 else x)
    m = [x * y for x, y in zip(f, b)]
    return [x / x.sum() if x.sum() > 0 else None for x in m]


def smooth(m):
    m = np.array(m)
    if (m == 0).any():
        m[m == 0] = m[m > 0].min() * .1
        m = m / m.sum()
    return m


def as_evidence(rng, t, user):
    r = rng.random()
    if not user:
        return None if r < .3 else {} if r < .7 else t.bind({})
    if r < .4:
        return dict(user)
    if r < .7:
        return t.bind(dict(user))
    return t.bind(dict(user)).value_assignment()


def snapshot(e):
    return None if e is None else canon.canon(e) if not isinstance(e, dict) else repr(e)


def marginals(ctx, s, ev):
    before = [snapshot(e) for e in ev]
    A = canon.tree(s.template_tree)
    tm = np.array(s.transition_model)
    try:
        return s.independent_marginals(ev)
    finally:
        ctx.check([snapshot(e) for e in ev] == before, 'evidence of a sequence is changed by a query', str(before)[:300])
        ctx.check(canon.tree(s.template_tree) == A and np.array_equal(tm, s.transition_model), 'model is changed by a query', '')


def compare(ctx, s, mix, trans, users, vals, got, what, tol=2e-4):
    """got: trees of the steps"""
    t = s.template_tree
    keys = list(t.leaves)
    phis = []
    for v in vals:
        x = mix.weights(v)
        phis.append(x / x.sum())
    exp = forward_backward(trans, phis)
    ctx.check(len(got) == len(vals), 'number of steps', f'{len(got)} {len(vals)}')
    for k, (tree, m, phi, user) in enumerate(zip(got, exp, phis, users)):
        ctx.count('marginals')
        ctx.count('leaves without mass', int(((m == 0) & (phi > 0)).sum()))
        m = np.where(phi > 0, smooth(m), 0)
        m = m / m.sum()
        pri = np.array([tree.leaves[i].prior if i in tree.leaves else 0. for i in keys])
        ctx.check(set(tree.leaves) <= set(keys), 'leaves of a step are not those of the template', str(list(tree.leaves)))
        ctx.check(abs(pri.sum() - 1) < 1e-9 and (pri >= 0).all(), 'leaf priors of a step are no distribution', str(pri))
        ctx.check(np.abs(pri - m).max() <= tol, f'{what} differ from the chain',
                  lambda: f'step {k} of {len(vals)}: {np.round(pri, 6).tolist()} | {np.round(m, 6).tolist()}',
                  evidence=str(users), transitions=trans.tolist(), world=ctx.note)
    return phis, exp


def case(ctx):
    rng = ctx.rng
    w = gen.make_world(rng, n=int(rng.choice([12, 30, 60, 120])), nvars=int(rng.choice([1, 2, 3, 4])))
    seqs = make_sequences(rng, w)
    rows = w.rows()
    obj = np.empty((w.n, len(w.variables)), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            obj[i, j] = x
    if set(w.kinds.values()) <= {'numeric', 'scaled', 'integer'} and rng.random() < .6:
        obj = np.array(rows, dtype=np.float64)
    steps = int(rng.choice([2, 2, 2, 3, 4]))
    seqs = [s for s in seqs if len(s) >= max(steps, 2)] or [list(range(w.n))]
    data = [obj[s] for s in seqs]
    before = [canon.canon(d) for d in data]
    h = {'min_samples_leaf': int(rng.choice([2, 3, 5, max(2, w.n // 6)]))}
    if rng.random() < .2:
        h['max_depth'] = int(rng.integers(0, 4))
    if rng.random() < .2:
        h['min_impurity_improvement'] = float(rng.choice([.01, .05]))
    targets = list(w.variables)
    if len(w.variables) > 1 and rng.random() < .35:
        # only the targets of the template are modelled in the later steps
        targets = [w.var(x) for x in gen.subset(rng, w.names, 1, len(w.names) - 1)]
        targets = [v for v in w.variables if v in targets]
        ctx.count('templates with targets')
        tm = JPT(variables=w.variables, targets=targets if rng.random() < .5 else [v.name for v in targets], **h)
    else:
        tm = JPT(variables=w.variables, **h)
    s = SequentialJPT(tm)
    if rng.random() < .2:
        k = [int(i) for i in rng.permutation(w.n)]
        s.fit([obj[k]], timesteps=2)
        ctx.count('refitted models')
    s.fit(data, timesteps=steps)
    ctx.check([canon.canon(d) for d in data] == before, 'fitting changes the sequences', '')
    t = s.template_tree
    ctx.check(t is tm, 'template is replaced', '')
    w.h = dict(h, steps=steps, lengths=[len(x) for x in seqs])
    ctx.note = gen.describe(w, t)
    ctx.count('templates')
    ctx.count('longer windows', int(steps > 2))

    # -- the template: learned from windows
    nv = len(w.variables)
    ex = [v.copy() for v in w.variables]
    for k in range(1, steps):
        for v in targets:
            c = v.copy()
            c._name = f'{v.name} in {k}'
            ex.append(c)
    win = []
    for q in seqs:
        for a in range(len(q) - steps + 1):
            win.append(list(rows[q[a]]) + [rows[i][w.names.index(v.name)] for i in q[a + 1:a + steps] for v in targets])
    R = JPT(variables=ex, targets=ex[nv:], features=ex[:nv], **h)
    R.learn(rows=win)
    names = [v.name for v in w.variables]
    A, B = canon.tree(t), canon.tree(R)
    ctx.check(A['inner'] == B['inner'] and A['root'] == B['root'], 'template has other decisions than the tree of the windows',
              lambda: f'{A["inner"]}\n{B["inner"]}', world=ctx.note)
    for l in B['leaves']:
        l[7] = [x for x in l[7] if x[0] in names]
    ctx.check(A['leaves'] == B['leaves'], 'template has other leaves than the tree of the windows',
              lambda: f'{A["leaves"]}\n{B["leaves"]}', world=ctx.note)
    ctx.check(A['priors'] == [x for x in B['priors'] if x[0] in names], 'template has other priors than the tree of the windows', '')
    ctx.check([v.name for v in t.variables] == names, 'variables of the template', '')
    ctx.check(abs(sum(l.prior for l in t.leaves.values()) - 1) < 1e-9, 'template priors do not sum to one', '')
    ctx.count('template leaves', len(t.leaves))

    # -- transitions
    X = w.values()
    routed, _ = learnref.route(t, X, {v.name: i for i, v in enumerate(w.variables)})
    leaf_of = {}
    for i in t.leaves:
        for r in routed[i]:
            leaf_of[int(r)] = i
    keys = list(t.leaves)
    n = len(keys)
    C = np.zeros((n, n))
    for q in seqs:
        for a, b in zip(q, q[1:]):
            C[keys.index(leaf_of[a]), keys.index(leaf_of[b])] += 1
    C /= C.sum()
    trans = np.asarray(s.transition_model)
    ctx.check(trans.shape == (n, n) and np.allclose(trans, C, atol=1e-12, rtol=0), 'transitions are not the frequencies of consecutive leaves',
              lambda: f'{trans.tolist()}\n{C.tolist()}', world=ctx.note)
    ctx.count('transition entries', n * n)

    # -- marginals
    mix = ref.Mixture(t)
    for j in range(3 if ctx.tier == 'quick' else 5):
        T = int(rng.choice([1, 2, 3, 4, 6, 11, 13, 25], p=[.12, .2, .2, .13, .1, .1, .1, .05]))
        users, vals = [], []
        for _ in range(T):
            u, v = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2) if rng.random() < .55 else [])
            if ref.ill_conditioned(mix, v):
                u, v = {}, {}
            users.append(u)
            vals.append(v)
        ev = [as_evidence(rng, t, u) for u in users]
        pe = [mix.p(v) for v in vals]
        if any(0 < p < 1e-7 for p in pe):
            continue
        if any(p == 0 for p in pe):
            ctx.count('impossible evidence')
            try:
                marginals(ctx, s, ev)
                ctx.check(False, 'impossible evidence is accepted', str(users))
            except Unsatisfiability:
                pass
            continue
        phis = [mix.weights(v) / p for v, p in zip(vals, pe)]
        exp = forward_backward(trans, phis)
        if exp[0] is None:
            ctx.count('impossible sequences')
            try:
                marginals(ctx, s, ev)
                ctx.check(False, 'impossible sequence is accepted', str(users), transitions=trans.tolist())
            except (Unsatisfiability, ValueError):
                pass
            continue
        if min(float(x[x > 0].min()) for x in exp) < 1e-9:
            continue
        got = marginals(ctx, s, ev)
        ctx.count('steps with evidence', sum(bool(u) for u in users))
        ctx.count('steps without evidence', sum(not u for u in users))
        ctx.count('sequences of one step', int(T == 1))
        ctx.count('sequences of more than ten steps', int(T > 10))
        compare(ctx, s, mix, trans, users, vals, got, 'marginals')
        # the leaves of every step are those of the tree conditioned on its evidence
        for k in {0, T - 1, int(rng.integers(T))}:
            c = t.conditional_jpt(ev[k] if ev[k] is not None else {})
            tree = got[k]
            ctx.check(list(c.leaves) == list(tree.leaves), 'leaves of a step are not those compatible with its evidence', f'{list(c.leaves)} {list(tree.leaves)}')
            for i in c.leaves:
                ctx.check([[v.name, canon.dist(d)] for v, d in c.leaves[i].distributions.items()] ==
                          [[v.name, canon.dist(d)] for v, d in tree.leaves[i].distributions.items()],
                          'leaf distributions of a step are not those given its evidence', f'step {k}, leaf {i}')
            if T == 1:
                pass
            # queries of the step
            m = np.where(phis[k] > 0, smooth(exp[k]), 0)
            m /= m.sum()
            qu, qv = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
            joint = ref.meet(qv, vals[k])
            p = 0.
            for x, l in zip(m, mix.leaves):
                if x > 0:
                    p += x * mix.leaf_p(l, joint) / mix.leaf_p(l, vals[k])
            got_p = tree.infer(qu)
            ctx.close(got_p, p, 'query of a step differs from the chain', abs_=1e-3, query=str(qu), evidence=str(users), step=k)
            ctx.check(-1e-9 <= got_p <= 1 + 1e-6, 'probability of a step out of range', repr(got_p))
            ctx.count('queries of steps')
            ml = tree.mpe()[1]
            ctx.check(ml > 0, 'most probable explanation of a step has no likelihood', repr(ml))
            ctx.count('point masses', int(any(v.numeric and l.distributions[v].is_dirac_impulse() for l in tree.leaves.values() for v in w.variables)))
        r = rng.random()
        if r < .25:         # again
            again = marginals(ctx, s, ev)
            ctx.check([canon.tree(x) for x in again] == [canon.tree(x) for x in got], 'repeated query gives another answer', str(users))
            ctx.count('repeated queries')
        elif r < .5:        # reversed chain
            u = SequentialJPT(t)
            u.transition_model = np.ascontiguousarray(trans.T)
            back = marginals(ctx, u, ev[::-1])
            for a, b in zip(got, back[::-1]):
                ctx.check(list(a.leaves) == list(b.leaves) and all(abs(a.leaves[i].prior - b.leaves[i].prior) < 5e-4 for i in a.leaves),
                          'reversed chain gives other marginals', lambda: f'{[l.prior for l in a.leaves.values()]} {[l.prior for l in b.leaves.values()]}',
                          evidence=str(users), transitions=trans.tolist())
            ctx.count('reversed chains')
        elif r < .75:       # independent steps
            u = SequentialJPT(t)
            q = rng.uniform(.2, 1, n)
            u.transition_model = np.full((n, n), 1. / n ** 2)
            for a, e in zip(marginals(ctx, u, ev), ev):
                c = t.conditional_jpt(e if e is not None else {})
                ctx.check(list(a.leaves) == list(c.leaves) and all(abs(a.leaves[i].prior - c.leaves[i].prior) < 1e-4 for i in c.leaves),
                          'independent steps are not conditional trees', lambda: f'{[l.prior for l in a.leaves.values()]} {[l.prior for l in c.leaves.values()]}',
                          evidence=str(users))
            ctx.count('independent steps')
        else:
            u = SequentialJPT.from_json(json.loads(json.dumps(s.to_json())))
            ctx.check(np.array_equal(u.transition_model, trans), 'restored model has other transitions', '')
            lab = [x.label_assignment() if hasattr(x, 'label_assignment') else x for x in ev]
            lab = [dict([(v.name, val) for v, val in x.items()]) if isinstance(x, LabelAssignment) else x for x in lab]
            for a, b in zip(got, u.independent_marginals(lab)):
                ctx.check(list(a.leaves) == list(b.leaves) and all(abs(a.leaves[i].prior - b.leaves[i].prior) < 1e-6 for i in a.leaves),
                          'restored model gives other marginals', '', evidence=str(users))
            ctx.count('restored models')
    if n > 1:
        ctx.nontrivial(n, steps, w.n, sorted(w.kinds.values()))
