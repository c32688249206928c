"""Pruning preserves mass, marginals and the partition; closing gaps keeps distributions normalised."""
import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.utils import normalized
from jpt.trees import Leaf
from jpt.variables import VariableMap

from vf import canon, gen, learnref, ref
from vf.checks.c08 import in_path, probes, safe_rows, structure
from vf.checks.c11 import sane

PROPERTY = 'C23'
RULE = ('Learned (and conditioned) trees are pruned with random thresholds and approximations, repeatedly. The oracle decides bottom-up '
        'which sibling leaves are similar enough (Jaccard similarity of densities and label probabilities) and compares the partition, priors, '
        'sample counts and leaf indices; marginals of the pruned tree are compared with those of the unpruned mixture (with approximations: '
        'at the remaining breakpoints). Trees learned without closing gaps are post-processed by hand and compared with themselves. '
        'Non-trivial: at least one merge, at least one closed gap.')
CASES = {'quick': 3000, 'thorough': 40000}
REQUIRED = ['merges', 'kept leaves', 'merged merges', 'pruned to the root', 'unpruned trees', 'marginals', 'approximations', 'breakpoints', 'queries', 'routed rows',
            'conditioned trees', 'repeated pruning', 'gaps closed', 'impulses spread', 'hulls', 'untouched distributions',
            'post-processed twice', 'leaf factors']
ASSUMPTIONS = ['similarities at the level of rounding errors from the threshold decide nothing']
TOL = 1e-7


class Sub:
    """what a subtree is pruned to, if it collapses to a single leaf"""
    __slots__ = ('node', 'prior', 'samples', 'parts', 'passed', 'real', 'merged')


def density(parts, x):
    return sum(w * ref.leaf_density(p, x) for w, p in parts)


def jaccard(v, a, b):
    """similarity of the mixtures of two subtrees; -> None if there are point masses"""
    if not v.numeric:
        pa, pb = [{l: sum(w * p[l] for w, p in s.parts[v.name]) for l in ref.labels_of(v)} for s in (a, b)]
        return sum(min(pa[l], pb[l]) for l in pa) / sum(max(pa[l], pb[l]) for l in pa)
    qa, qb = a.parts[v.name], b.parts[v.name]
    if any(p.atoms(1e-9) for _, p in qa + qb):
        return None
    cuts = sorted({k for _, p in qa + qb for k in p.knots})
    lo = hi = 0.
    for s, e in zip(cuts, cuts[1:]):
        m = (s + e) / 2
        if not s < m < e:
            continue
        da, db = density(qa, m), density(qb, m)
        lo += min(da, db) * (e - s)
        hi += max(da, db) * (e - s)
    return lo / hi if hi else None


def predict(ctx, t, thr, approx):
    """-> {id of the node: Sub} of the resulting leaves, or None if undecided"""
    out, undecided = {}, []
    mix = {id(m.leaf): m for m in ref.Mixture(t).leaves}

    def visit(node):
        s = Sub()
        s.node = node
        if isinstance(node, Leaf):
            m = mix[id(node)]
            s.prior, s.samples, s.merged = node.prior, node.samples, 0
            s.parts = s.passed = {n: [(1., d)] for n, d in m.dists.items()}
            s.real = dict(node.distributions.items())
            return s
        subs = [visit(c) for c in node.children]
        if len(subs) == 2 and None not in subs:
            a, b = subs
            sims = []
            for v in t.variables:
                if v is node.variable or v.name == node.variable.name:
                    continue
                e = None if approx else jaccard(v, a, b)
                if e is None:
                    e = v.domain.jaccard_similarity(a.real[v], b.real[v])
                sims.append(e)
            sim = float(np.mean(sims)) if sims else np.nan
            if np.isnan(sim):
                pass
            elif abs(sim - thr) <= 1e-8:
                if thr:                                # similarities of exactly 0 are never below 0
                    undecided.append(node)
            if sim >= thr:
                s.prior, s.samples, s.merged = a.prior + b.prior, a.samples + b.samples, a.merged + b.merged + 1
                w = [a.prior / s.prior, b.prior / s.prior]
                s.parts = {n: [(w[0] * x, p) for x, p in a.passed[n]] + [(w[1] * x, p) for x, p in b.passed[n]] for n in a.parts}
                s.real, s.passed = {}, dict(s.parts)
                for v in t.variables:
                    d = v.domain.merge([a.real[v], b.real[v]], normalized([a.prior, b.prior]))
                    if v.name in approx and v.numeric:
                        d = d.approximate(approx[v.name])
                        # breakpoints of the siblings remain, approximated ones do not
                        s.passed[v.name] = [(1., ref.PL(d.cdf))]
                    s.real[v] = d
                return s
        for c in subs:
            if c is not None:
                out[id(c.node)] = c
        return None

    top = visit(t.root)
    if top is not None:
        out[id(top.node)] = top
    return None if undecided else list(out.values())


def pruning(ctx, rng):
    w, t = gen.world_tree(rng, nvars=int(rng.integers(1, 5)))
    cond = False
    if rng.random() < .2:
        user, val = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        mix = ref.Mixture(t)
        if mix.p(val) > 1e-6 and not ref.ill_conditioned(mix, val):
            try:
                t = t.conditional_jpt(gen.as_arg(rng, t, user))
                cond = True
                ctx.count('conditioned trees')
            except Unsatisfiability:
                pass                 # decided by C05
    thr = float(rng.choice([0., .05, .2, .4, .6, .8, 1., 1.1]))
    approx, arg = {}, None
    if rng.random() < .25:
        k = float(rng.choice([.01, .1, .5]))
        r = rng.random()
        if r < .5:
            arg, approx = k, {v.name: k for v in t.variables}
        else:
            vs = [v for v in t.variables if rng.random() < .6]
            approx = {v.name: k for v in vs}
            arg = {v: k for v in vs} if r < .8 else VariableMap({v: k for v in vs}, variables=t.variables)
        ctx.count('approximations')
    ctx.note = dict(gen.describe(w, t), threshold=thr, approximate=str(arg), conditioned=cond)
    before = canon.tree(t)
    mix = ref.Mixture(t)
    p = t.prune(thr, arg) if arg is not None else t.prune(thr)
    ctx.check(canon.tree(t) == before, 'pruning changes the original tree', '')
    expect = predict(ctx, t, thr, approx)
    pmix = ref.Mixture(p)
    # -- structure
    ctx.close(sum(m.prior for m in pmix.leaves), 1, 'priors of the pruned tree do not sum to one', '', abs_=1e-9)
    ctx.check(all(m.prior > 0 for m in pmix.leaves) or any(m.prior <= 0 for m in mix.leaves), 'leaf of the pruned tree has no mass', '')
    ctx.check(p.total_samples() == t.total_samples(), 'pruning loses samples', lambda: f'{p.total_samples()} of {t.total_samples()}')
    if not cond:
        structure(ctx, p)
    for m in pmix.leaves:
        for v in p.variables:
            d = m.dists[v.name]
            if v.numeric:
                sane(ctx, d, f'{v.name} of {m.leaf}', 1e-7 if cond else 1e-10)     # cropping amplifies rounding errors
            else:
                ctx.close(sum(d.values()), 1, 'distribution of a pruned leaf is not normalised', v.name, abs_=1e-9)
    if expect is not None:
        ctx.check(len(expect) == len(p.leaves), 'pruning merges other leaves', lambda: f'{len(p.leaves)} leaves instead of {len(expect)} of {len(t.leaves)}')
        todo = list(pmix.leaves)
        for s in expect:
            path = ref.read_path(s.node)
            m = next((m for m in todo if m.path == path), None)
            ctx.check(m is not None, 'pruning merges other leaves', lambda: f'no leaf with path {path}')
            todo.remove(m)
            ctx.close(m.prior, s.prior, 'prior of a pruned leaf is wrong', lambda: str(m.leaf), rel=1e-9)
            ctx.check(m.leaf.samples == s.samples, 'sample count of a pruned leaf is wrong', lambda: f'{m.leaf.samples} instead of {s.samples}')
            ctx.count('merges' if s.merged else 'kept leaves')
            ctx.count('merged merges', int(s.merged > 1))
            if not s.merged:
                ctx.check(m.leaf.idx == s.node.idx, 'leaf that is kept changes its index', lambda: f'{m.leaf.idx}, {s.node.idx}')
            leafwise(ctx, rng, p, m, s, approx)
        ctx.count('pruned to the root', int(len(expect) == 1 and len(t.leaves) > 1))
        ctx.count('unpruned trees', int(len(expect) == len(t.leaves)))
    # -- marginals of the tree
    for v in p.variables:
        if v.name in approx and v.numeric:
            continue
        for _ in range(2):
            user, val = gen.event(rng, w, t, [v.name])
            ctx.close(pmix.p(val), mix.p(val), 'pruning changes a marginal', lambda: f'{v.name}: {user}', abs_=TOL)
            ctx.close(float(p.infer(gen.as_arg(rng, p, user))), mix.p(val), 'marginal of the pruned tree is wrong', lambda: f'{v.name}: {user}', abs_=TOL)
            ctx.count('marginals')
    # -- the pruned tree answers queries as its own mixture
    q, qv = gen.event(rng, w, p, gen.subset(rng, w.names, 1, 2))
    e, e_v = gen.event(rng, w, p, gen.subset(rng, w.names, 0, 2))
    if pmix.p(e_v) > 1e-6 and not ref.ill_conditioned(pmix, e_v) and not ref.ill_conditioned(pmix, ref.meet(qv, e_v)):
        ctx.close(float(p.infer(gen.as_arg(rng, p, q), gen.as_arg(rng, p, e))), pmix.cond(qv, e_v)[0], 'pruned tree gives another answer than its leaves',
                  lambda: f'{q} | {e}', abs_=1e-6)
        ctx.count('queries')
    # -- rows
    if not cond:
        X = w.values()
        ix = {v.name: i for i, v in enumerate(w.variables)}
        ok = safe_rows(t, X, ix)
        enc = p.encode(w.df())
        for i in np.nonzero(ok)[0][:40]:
            leaf = p.leaves.get(int(enc[i]))
            ctx.check(leaf is not None and in_path(X[i:i + 1], ix, {k: s for k, s in ref.read_path(leaf).items()})[0],
                      'row is encoded to the wrong leaf of the pruned tree', lambda: f'{w.rows()[i]}: {enc[i]}')
            ctx.count('routed rows')
    # -- pruning again
    if expect is not None and not approx and rng.random() < .4:
        again = p.prune(thr)
        e2 = predict(ctx, p, thr, {})
        if e2 is not None:
            ctx.check(len(again.leaves) == len(p.leaves), 'pruning a pruned tree with the same threshold changes it',
                      lambda: f'{len(again.leaves)} of {len(p.leaves)} leaves')
            ctx.count('repeated pruning')
    # -- the results share nothing
    if rng.random() < .2:
        for leaf in p.leaves.values():
            leaf.prior *= .5
            for v, d in leaf.distributions.items():
                if not v.numeric:
                    d._params[:] = 0.
        ctx.check(canon.tree(t) == before, 'pruned tree shares its leaves with the original', '')
    if expect is not None and any(s.merged for s in expect):
        ctx.nontrivial('prune', thr, len(t.leaves), sorted((s.merged, round(s.prior, 9)) for s in expect))


def leafwise(ctx, rng, p, m, s, approx):
    """distributions of the resulting leaf are mixtures of those of the subtree"""
    for v in p.variables:
        parts, d = s.parts[v.name], m.dists[v.name]
        if not v.numeric:
            for l in d:
                ctx.close(d[l], sum(w * q[l] for w, q in parts), 'label probability of a merged leaf is not that of the mixture', lambda: f'{v.name}={l}', abs_=1e-9)
            continue
        loose = s.merged and v.name in approx
        ks = d.knots if loose else sorted({*d.knots, *[k for _, q in parts for k in q.knots]})
        for k in ks:
            t = 1e-9 * max(1e-3, abs(k))
            lo, hi = sum(w * q.Fm(k - t) for w, q in parts), sum(w * q.F(k + t) for w, q in parts)
            if loose and hi - lo > 1e-6:       # the density has no breakpoint at a point mass that remains
                if any(x == k for _, q in parts for x, _ in q.atoms(1e-3)):
                    ctx.close(d.F(k + t) - d.Fm(k - t), hi - lo, 'approximation of a merged leaf loses a point mass', lambda: f'{v.name} at {k}', abs_=1e-6)
                continue
            ctx.check(lo - TOL <= d.F(k) <= hi + TOL, 'CDF of a merged leaf is not that of the mixture', lambda: f'{v.name} at {k}: {d.F(k)} not in {lo}, {hi}')
            if loose:
                ctx.count('breakpoints')
            else:
                x = k + t
                lo, hi = sum(w * q.Fm(x) for w, q in parts), sum(w * q.F(x + t) for w, q in parts)
                ctx.check(lo - TOL <= d.F(x) <= hi + TOL, 'CDF of a merged leaf is not that of the mixture', lambda: f'{v.name} next to {k}: {d.F(x)} not in {lo}, {hi}')


def closing(ctx, rng):
    """postprocess_leaves() against the tree before"""
    w, t = gen.world_tree(rng, gaps=False)
    ctx.note = gen.describe(w, t)
    before = {m.leaf.idx: m for m in ref.Mixture(t).leaves}
    meta = {i: (l.samples, l.prior, l.parent) for i, l in t.leaves.items()}
    N = t.total_samples()
    t.postprocess_leaves()
    after = ref.Mixture(t)
    ctx.check(meta == {i: (l.samples, l.prior, l.parent) for i, l in t.leaves.items()}, 'closing gaps changes leaves', '')
    for m in after.leaves:
        old = before[m.leaf.idx]
        for v in t.variables:
            a, b = old.dists[v.name], m.dists[v.name]
            if not v.numeric or v.name not in m.path:
                same = (a == b) if not v.numeric else a.segs == b.segs or [(x, y, ref.coeffs(f)) for x, y, f in a.segs] == [(x, y, ref.coeffs(f)) for x, y, f in b.segs]
                ctx.check(same, 'closing gaps changes a distribution that is not bounded by a split', lambda: f'{v.name} of {m.leaf}')
                ctx.count('untouched distributions')
                continue
            what = f'{v.name} of {m.leaf}'
            sane(ctx, b, what)
            (lo, _, _, _), (_, hi, _, _) = m.path[v.name][0], m.path[v.name][-1]
            first, last = a.knots[0], a.knots[-1]
            L, R = min(first, lo) if np.isfinite(lo) else first, max(last, hi) if np.isfinite(hi) else last
            sc = 1e-9 * max(1e-3, abs(L), abs(R))
            # no mass outside of the cell
            ctx.check(abs(b.knots[0] - L) <= sc and abs(b.knots[-1] - R) <= sc, 'closing gaps does not reach the bounds of the leaf', lambda: f'{what}: {b.knots} for {L}, {R}')
            ctx.count('hulls')
            ctx.count('gaps closed', int(L < first or R > last))
            # positive density all over the cell
            for k, n in zip(b.knots, b.knots[1:]):
                old_zero = any(x <= k and n <= y and not ref.coeffs(f)[0] for x, y, f in a.segs[1:-1])
                ctx.check(n - k <= 4 * sc or old_zero or ref.leaf_density(b, (k + n) / 2) > 0, 'convex hull has density zero', lambda: f'{what}: [{k}, {n}]')
            if len(a.segs) == 2:
                ctx.count('impulses spread')
                ctx.check(ref.leaf_density(b, first) > 0 or len(b.segs) == 2, 'observed value has density zero', lambda: f'{what}: {first}')
                continue
            # nearly all of the mass stays where it was
            for k in sorted({*a.knots, *b.knots}):
                tol = 1 / (2 * N) + 1e-7
                ctx.check(a.Fm(k - sc) - tol <= b.F(k) <= a.F(k + sc) + tol, 'closing gaps moves mass', lambda: f'{what}: {b.F(k)}, {a.F(k)} at {k}')
    if rng.random() < .4:
        s = canon.tree(t)
        t.postprocess_leaves()
        ctx.count('post-processed twice')
        for m, o in zip(ref.Mixture(t).leaves, after.leaves):
            for v in t.variables:
                if v.numeric:
                    a, b = o.dists[v.name], m.dists[v.name]
                    for k in a.knots:
                        ctx.close(b.F(k), a.F(k), 'closing gaps twice changes distributions', lambda: f'{v.name} of {m.leaf}', abs_=1 / (2 * N) + 1e-7)
    l = t.likelihood(w.df())
    ctx.check(np.all(l > 0), 'training sample has no likelihood', lambda: str(l))
    ctx.nontrivial('closing', [round(m.prior, 9) for m in after.leaves], N)


def factors(ctx, rng):
    w, t = gen.world_tree(rng)
    f = {i: float(rng.choice([0., .1, 1., 7.])) for i in t.leaves}
    z = sum(l.prior * f[i] for i, l in t.leaves.items())
    priors = {i: l.prior for i, l in t.leaves.items()}
    c = t.copy()
    ctx.note = {'factors': f}
    if not z:
        try:
            c.multiply_by_leaf_prior(f)
        except Unsatisfiability:
            return
        ctx.check(False, 'factors without mass are accepted', '')
    r = c.multiply_by_leaf_prior(f)
    ctx.check(r is c, 'multiplication does not return the tree', '')
    for i, l in c.leaves.items():
        ctx.close(l.prior, priors[i] * f[i] / z, 'prior is not the normalised product', str(i), rel=1e-9, abs_=1e-12)
    ctx.check(all(priors[i] == l.prior for i, l in t.leaves.items()), 'multiplication changes the original of the copy', '')
    ctx.count('leaf factors')


def case(ctx):
    rng = ctx.rng
    f = [pruning, closing, factors][int(rng.choice(3, p=[.65, .3, .05]))]
    f(ctx, rng)
