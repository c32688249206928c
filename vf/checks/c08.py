"""Leaves partition the sample space and account for every training sample."""
import sys

import numpy as np
import pandas as pd

from jpt.trees import JPT, Leaf, DecisionNode
from jpt.variables import NumericVariable, infer_from_dataframe

from vf import gen, learnref, ref

PROPERTY = 'C08'
RULE = ('Random data, variables and hyper-parameters; the links, the split sets and the bookkeeping of the learned tree '
        'are read; training samples, random samples and samples on and next to the split values are routed by the bare '
        'split sets and compared with sample counts, priors, stored sample indices, paths, contains(), encode() and '
        'apply(). Non-trivial: a tree with at least two leaves.')
CASES = {'quick': 2500, 'thorough': 60000}
REQUIRED = ['decision nodes', 'samples routed', 'boundary samples', 'stored sample indices', 'apply events',
            'apply points', 'symbolic splits', 'integer splits', 'numeric splits', 'encoded rows', 'relearned trees', 'adjacent values', 'large values', 'huge values', 'deep trees']
ASSUMPTIONS = ['finite data']


def domain(v):
    return [(-np.inf, np.inf, False, False)] if v.numeric else set(range(len(ref.labels_of(v))))


def inter(v, a, b):
    return ref.intersect(a, b) if v.numeric else a & b


def structure(ctx, t):
    """links, disjointness and coverage; -> {leaf idx: {variable name: set}} as it follows from the splits"""
    seen, paths = set(), {}
    stack = [(t.root, None, {})]
    maxd = 0
    while stack:
        node, parent, path = stack.pop()
        ctx.check(node.idx not in seen, 'node is reachable twice', str(node))
        seen.add(node.idx)
        ctx.check(node.parent is parent, 'wrong parent link', str(node))
        ctx.check(t.allnodes.get(node.idx) is node, 'node is not registered', str(node))
        depth = 0
        p = parent
        while p is not None:
            depth += 1
            p = p.parent
        maxd = max(maxd, depth)
        ctx.check(node.depth() == depth, 'wrong depth', lambda: f'{node}: {node.depth()} instead of {depth}')
        own = {}
        for v, s in node.path.items():
            own[v.name] = ref.from_numberset(s) if v.numeric else {int(x) for x in s}
        ctx.check(own == path, 'path is not the meet of the splits', lambda: f'{node}: {own} instead of {path}')
        if isinstance(node, Leaf):
            paths[node.idx] = path
            ctx.check(t.leaves.get(node.idx) is node, 'leaf is not registered', str(node))
            continue
        ctx.count('decision nodes')
        v = node.variable
        ctx.count(('symbolic' if v.symbolic else 'integer' if v.integer else 'numeric') + ' splits')
        ctx.check(t.innernodes.get(node.idx) is node, 'decision node is not registered', str(node))
        ctx.check(len(node.children) == len(node.splits), 'children and splits differ in number', str(node))
        cs = learnref.children(node)
        here = path.get(v.name, domain(v))
        union = []
        for k, (c, s) in enumerate(cs):
            ctx.check(bool(s), 'empty split', lambda: f'{node}: {node.splits}')
            for c2, s2 in cs[:k]:
                ctx.check(not inter(v, s, s2), 'splits overlap', lambda: f'{node}: {node.splits}')
            union = ref.normalise(list(union) + list(s)) if v.numeric else set(union) | s
            q = dict(path)
            q[v.name] = inter(v, here, s)
            stack.append((c, node, q))
        ctx.check(union == domain(v), 'splits do not cover the domain', lambda: f'{node}: {node.splits}')
    ctx.check(seen == set(t.leaves) | set(t.innernodes), 'unreachable nodes', lambda: str(seen))
    ctx.check(t.depth() == maxd, 'wrong tree depth', lambda: f'{t.depth()} instead of {maxd}')
    return paths


def in_path(X, ix, path):
    m = np.ones(len(X), dtype=bool)
    for nm, s in path.items():
        m &= learnref.mask(X[:, ix[nm]], s)
    return m


def probes(rng, w, t, k=30):
    """label rows and value rows off the training data: random, extreme and at split values"""
    cols, vals = [], []
    for v in w.variables:
        if v.numeric:
            m, s = ref.affine(v)
            c = np.array(w.cols[v.name], dtype=float)
            pts = [float(x) for x in rng.choice(c, 8)] + [float(c.min() - 1), float(c.max() + 1), -1e6, 1e6]
            pts += [float(x) for x in rng.uniform(c.min() - .5, c.max() + .5, 6)]
            for nd in t.innernodes.values():
                if nd.variable is v and nd.splits:
                    for sp in nd.splits:
                        for e in (sp.lower, sp.upper):
                            if np.isfinite(e):
                                e = e * s + m
                                pts += [e, np.nextafter(e, -np.inf), np.nextafter(e, np.inf)]
            col = [pts[i] for i in rng.integers(0, len(pts), k)]
            val = [(x - m) / s if (m, s) != (0., 1.) else x for x in col]
        else:
            lab = ref.labels_of(v)
            idx = rng.integers(0, len(lab), k)
            col, val = [lab[i] for i in idx], [float(i) for i in idx]
        cols.append(col)
        vals.append(val)
    return [list(r) for r in zip(*cols)], np.array(vals, dtype=float).T


def safe_rows(t, X, ix, tol=1e-12):
    """rows whose scaled values are not within rounding distance of a split"""
    ok = np.ones(len(X), dtype=bool)
    for nd in t.innernodes.values():
        if nd.variable.numeric and ref.affine(nd.variable) != (0., 1.):
            for sp in nd.splits:
                for e in (sp.lower, sp.upper):
                    if np.isfinite(e):
                        ok &= np.abs(X[:, ix[nd.variable.name]] - e) > tol * max(1, abs(e))
    return ok


def resolution(ctx, rng):
    """values of which the mean is not representable, or not in between"""
    n = int(rng.integers(4, 40))
    if rng.random() < .8:
        x = rng.integers(1, 7, n) * float(rng.choice([.1, .3, 1., 1 / 3, -.7, 1e6]))
        m = rng.random(n) < .4
        x[m] = np.nextafter(x[m], rng.choice([-np.inf, np.inf]))
        what = 'adjacent values'
    elif rng.random() < .5:   # numbers the neighbours of which are further apart than 1
        x = float(rng.choice([2. ** 54, 1.7e18, -1e200])) * (1 + rng.integers(1, 9, n) * float(rng.choice([1e-6, .01, .1])))
        what = 'large values'
    else:
        x = rng.choice([-1., 1.], n) * np.round(rng.uniform(9e307, 1.6e308, n), -306) if rng.random() < .3 else np.round(rng.uniform(9e307, 1.6e308, n), -306)
        # the range must be representable
        x = np.abs(x) * float(rng.choice([-1., 1.]))
        what = 'huge values'
    cols = {'x': x}
    if rng.random() < .7:
        cols['c'] = ['ab'[int(i)] for i in (rng.random(n) < np.where(x > np.median(x), .9, .1))]
    if rng.random() < .5:
        cols['y'] = np.round((x > np.median(x)) + rng.uniform(0, .5, n), 3)
    df = pd.DataFrame(cols)
    vs = infer_from_dataframe(df, scale_numeric_types=False)
    t = JPT(vs, min_samples_leaf=int(rng.choice([1, 2, max(1, n // 4)]))).fit(df, close_convex_gaps=bool(rng.random() < .5) and what == 'adjacent values', keep_samples=True)
    ctx.note = {'x': x.tolist(), 'leaves': len(t.leaves), 'what': what}
    X = np.array([[(v.domain.values[r] if v.symbolic else float(r)) for v, r in zip(vs, row)] for row in df.itertuples(index=False)], dtype=float)
    ix = {v.name: i for i, v in enumerate(vs)}
    structure(ctx, t)
    rows, _ = learnref.route(t, X, ix)
    hit = np.zeros(n, dtype=int)
    for r in rows.values():
        hit[r] += 1
    ctx.check(np.array_equal(sorted(i for k in t.leaves for i in rows[k]), np.arange(n)), 'training sample is not in exactly one leaf', str(hit))
    enc = np.asarray(t.encode(df)).astype(int)
    for idx, leaf in t.leaves.items():
        ctx.check(leaf.samples == len(rows[idx]), 'wrong number of samples in a leaf', f'leaf {idx}: {leaf.samples} instead of {len(rows[idx])}')
        ctx.check(sorted(int(i) for i in leaf.s_indices) == sorted(rows[idx].tolist()), 'stored sample indices are not those of the leaf', f'leaf {idx}')
        ctx.check(np.array_equal(np.where(enc == idx)[0], np.sort(rows[idx])), 'encode() gives another leaf than the splits', lambda: f'{leaf} {leaf.path}: {np.where(enc == idx)[0]} instead of {rows[idx]}')
    ctx.count(what, n)
    if len(t.leaves) > 1:
        ctx.nontrivial(what, len(t.leaves), sorted(len(r) for r in rows.values()))


def deep(ctx, rng):
    """a tree that is deeper than what the interpreter allows to recurse"""
    n = 400
    x = (1. + rng.uniform(.03, .06)) ** np.arange(n)
    v = NumericVariable('x')
    t = JPT([v], min_samples_leaf=1)
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + 200)
    try:
        t.learn(columns=[[float(a) for a in rng.permutation(x)]])
        text = t.pfmt()
        t2 = JPT.from_json(t.to_json())
    finally:
        sys.setrecursionlimit(limit)
    ctx.count('deep trees', int(t.depth() > 250))
    ctx.check(len(text.splitlines()) == len(t.allnodes) and len(t2.leaves) == len(t.leaves), 'a deep tree is incomplete',
              lambda: f'{len(text.splitlines())} lines, {len(t2.leaves)} leaves after restoring, {len(t.allnodes)} nodes')
    structure(ctx, t)


def case(ctx):
    rng = ctx.rng
    if ctx.i % 700 == 3:
        return deep(ctx, rng)
    if rng.random() < .04:
        return resolution(ctx, rng)
    w = gen.make_world(rng)
    h = gen.hyper(rng, w)
    keep = bool(rng.random() < .6)
    kw = {'close_convex_gaps': bool(rng.random() < .6), 'keep_samples': keep}
    t = gen.make_tree(rng, w, learn_kw=kw, **h)
    if rng.random() < .15:
        # learning again replaces everything
        w.z = w.z[:max(2, len(w.z) // 2)]
        w.cols = {k: c[:len(w.z)] for k, c in w.cols.items()}
        t.learn(w.df(), **kw)
        ctx.count('relearned trees')
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t)
    X = w.values()
    ix = {v.name: i for i, v in enumerate(w.variables)}
    paths = structure(ctx, t)
    # -- training samples
    ok = safe_rows(t, X, ix)
    exact = bool(ok.all())
    rows, depth = learnref.route(t, X, ix)
    hit = np.zeros(w.n, dtype=int)
    leaf_of = np.full(w.n, -1)
    for idx in t.leaves:
        hit[rows[idx]] += 1
        leaf_of[rows[idx]] = idx
    ctx.count('samples routed', w.n)
    ctx.check(np.all(hit == 1), 'training sample is not in exactly one leaf', lambda: str(hit))
    total = 0
    for idx, leaf in t.leaves.items():
        n = len(rows[idx])
        total += leaf.samples
        ctx.close(leaf.prior, leaf.samples / w.n, 'prior is not the share of the samples', f'leaf {idx}', abs_=1e-12)
        ctx.check(leaf.samples > 0, 'leaf without samples', f'leaf {idx}')
        if exact:
            ctx.check(leaf.samples == n, 'wrong number of samples in a leaf', f'leaf {idx}: {leaf.samples} instead of {n}')
        if keep:
            ctx.count('stored sample indices', n)
            if exact:
                ctx.check(sorted(int(i) for i in leaf.s_indices) == sorted(rows[idx].tolist()),
                          'stored sample indices are not those of the leaf', f'leaf {idx}')
        else:
            ctx.check(len(leaf.s_indices) == 0, 'sample indices although not requested', f'leaf {idx}')
        for v in w.variables:
            p = paths[idx].get(v.name)
            if p is None or v.numeric:
                continue
            d = leaf.distributions[v]
            pr = np.asarray(d._params if v.symbolic else [d._p({i}) for i in range(len(ref.labels_of(v)))], dtype=float)
            out = sum(pr[i] for i in range(len(pr)) if i not in p)
            ctx.check(out == 0, 'leaf has mass outside of its path', lambda: f'leaf {idx}, {v.name}: {out}')
    for idx, nd in t.innernodes.items():
        if exact:
            ctx.check(nd.samples == len(rows[idx]), 'wrong number of samples at a decision node', f'node {idx}')
    ctx.check(total == w.n and t.total_samples() == w.n, 'samples do not add up', f'{total}, {t.total_samples()} of {w.n}')
    ctx.close(sum(l.prior for l in t.leaves.values()), 1, 'priors do not sum to one')
    if len(t.leaves) > 1:
        ctx.nontrivial(len(t.leaves), sorted(len(r) for r in rows.values()))
    # -- encode, contains
    lab, V = probes(rng, w, t)
    nb = len(lab)
    allrows, allX = w.rows() + lab, np.vstack([X, V])
    ok = safe_rows(t, allX, ix)
    r2, _ = learnref.route(t, allX, ix)
    want = np.full(len(allX), -1)
    hit = np.zeros(len(allX), dtype=int)
    for idx in t.leaves:
        want[r2[idx]] = idx
        hit[r2[idx]] += 1
    ctx.check(np.all(hit == 1), 'sample is not in exactly one leaf', lambda: str(hit))
    ctx.count('boundary samples', nb)
    form = rng.choice(['rows', 'array', 'df'])
    if form == 'rows':
        arg = allrows
    elif form == 'array':
        arg = np.array(allrows, dtype=object)
    else:
        arg = pd.DataFrame({v.name: pd.Series([r[j] for r in allrows], dtype=w.df()[v.name].dtype)
                            for j, v in enumerate(w.variables)}, columns=w.names)
    enc = np.asarray(t.encode(arg))
    ctx.count('encoded rows', len(enc))
    ctx.check(enc.shape == (len(allX),), 'encode() does not give one leaf per row', str(enc.shape))
    bad = np.where(ok & (enc.astype(int) != want))[0]
    ctx.check(len(bad) == 0, 'encode() gives another leaf than the splits',
              lambda: f'{form}: row {allrows[bad[0]]}: {enc[bad[0]]} instead of {want[bad[0]]}')
    vm = {v: i for i, v in enumerate(w.variables)}
    for idx, leaf in t.leaves.items():
        got = np.asarray(leaf.contains(allX, vm), dtype=bool)
        ctx.check(np.array_equal(got[ok], in_path(allX, ix, paths[idx])[ok]), 'contains() differs from the path', f'leaf {idx}')
    # -- apply
    steps = {}
    stack = [(t.root, [])]
    while stack:
        node, cs = stack.pop()
        if isinstance(node, Leaf):
            steps[node.idx] = cs
        else:
            stack += [(c, cs + [(node.variable.name, s)]) for c, s in learnref.children(node)]
    for _ in range(4):
        if rng.random() < .4:
            k = int(rng.integers(len(allrows)))
            if not ok[k]:
                continue
            nms = gen.subset(rng, w.names, 1)
            user = {nm: allrows[k][ix[nm]] for nm in nms}
            val = {}
            for nm in nms:
                v = w.var(nm)
                x = allX[k, ix[nm]]
                val[nm] = [(x, x, True, True)] if v.numeric else {int(x)}
            ctx.count('apply points')
        else:
            user, val = gen.event(rng, w, t, gen.subset(rng, w.names, 0, 3))
            val = {nm: (s if w.var(nm).numeric else {ref.labels_of(w.var(nm)).index(x) for x in s}) for nm, s in val.items()}
            ctx.count('apply events')
        near = False
        for nm, s in val.items():      # ends of scaled intervals within rounding distance of a split
            v = w.var(nm)
            if v.numeric and ref.affine(v) != (0., 1.):
                for nd in t.innernodes.values():
                    if nd.variable.name == nm:
                        for sp in nd.splits:
                            for e in (sp.lower, sp.upper):
                                near |= any(np.isfinite(e) and abs(b - e) <= 1e-9 * max(1, abs(e))
                                            for iv in s for b in iv[:2])
        if near:
            continue
        exp = {idx for idx, p in paths.items()
               if all(inter(w.var(nm), p.get(nm, domain(w.var(nm))), s) for nm, s in val.items())}
        arg = gen.as_arg(rng, t, user)
        got = [l.idx for l in t.apply(arg)]
        ctx.check(len(got) == len(set(got)), 'apply() yields a leaf twice', lambda: str(got), query=str(user))
        # apply() tests the conditions of a path one by one, which admits leaves that only fail their meet
        step = {idx for idx, cs in steps.items() if all(inter(w.var(nm), s, val[nm]) for nm, s in cs if nm in val)}
        ctx.check(exp <= set(got) <= step, 'apply() does not yield the consistent leaves',
                  lambda: f'{sorted(got)} instead of {sorted(exp)}', query=str(user))
        bound = t.bind(user)
        own = {idx for idx, l in t.leaves.items() if l.applies(bound)}
        ctx.check(own == exp, 'Leaf.applies() differs from the path', lambda: f'{sorted(own)} instead of {sorted(exp)}', query=str(user))
