"""Laws of probability, observed on the answers of infer() alone (metamorphic)."""
import numpy as np

from vf import gen, ref
from vf.core import Skip

PROPERTY = 'C02'
RULE = ('Random learned tree (also conditioned, pruned, copied or re-read ones) and random events A, B, E over its '
        'variables; the answers of infer() have to satisfy normalisation, complement, additivity over random '
        'partitions of a domain, monotonicity, chain rule, total probability, Bayes and P(A|A)=1. Non-trivial: at '
        'least one of the probabilities entering the laws is strictly between 0 and 1.')
CASES = {'quick': 2500, 'thorough': 30000}
REQUIRED = ['complement', 'additivity', 'monotonicity', 'chain rule', 'total probability', 'bayes',
            'the same variable', 'trees: conditional', 'trees: copied']
ASSUMPTIONS = ['evidence of positive probability']


def variant(ctx, w, t):
    rng = ctx.rng
    r = rng.random()
    if r < .15:
        ctx.count('trees: copied')
        return t.copy()
    if r < .4:
        names = gen.subset(rng, w.names, 1, 2)
        eu, ev = gen.event(rng, w, t, names)
        if t.infer(dict(eu)) > 1e-4 and not ref.ill_conditioned(ref.Mixture(t), ev):
            c = t.conditional_jpt(t.bind(dict(eu)))
            ctx.count('trees: conditional')
            return c
    ctx.count('trees: learned')
    return t


def partition(rng, w, t, var):
    """a random partition of the domain of a variable, as user-level values"""
    if var.numeric:
        cuts = sorted(set(float(x) for x in rng.choice(gen.interesting_points(rng, w, t, var), int(rng.integers(1, 5)))))
        # no parts at the level of rounding errors
        cuts = [c for i, c in enumerate(cuts) if i == 0 or c - cuts[i - 1] > 1e-9 * (1e-3 + abs(c))]
        bounds = [(-np.inf, False)] + [(c, bool(rng.random() < .5)) for c in cuts]
        parts = []
        for i, (c, left) in enumerate(bounds):
            hi = bounds[i + 1] if i + 1 < len(bounds) else (np.inf, True)
            # 'left': whether the cut belongs to the part at its right
            parts.append((c, hi[0], left, not hi[1]))
        parts = [p for p in parts if not ref.is_empty(p)]
        return [ref.to_numberset([p]) for p in parts]
    labs = ref.labels_of(var)
    perm = [labs[i] for i in rng.permutation(len(labs))]
    k = int(rng.integers(1, len(labs) + 1))
    cuts = sorted(rng.choice(np.arange(1, len(labs)), size=k - 1, replace=False)) if k > 1 else []
    return [set(perm[a:b]) for a, b in zip([0] + list(cuts), list(cuts) + [len(labs)])]


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    t = variant(ctx, w, t)
    ctx.note = gen.describe(w, t)
    tol = dict(rel=1e-5, abs_=2e-6)

    def P(q, e=None):
        ctx.count('infer calls')
        p = t.infer(dict(q), dict(e) if e else None)
        ctx.check(p is not None and np.isfinite(p) and -1e-9 <= p <= 1 + 1e-6, 'probability out of range', repr(p),
                  query=q, evidence=e)
        if 1e-6 < p < 1 - 1e-6:
            ctx.nontrivial(round(float(p), 9))
        return p

    ctx.close(P({}), 1, 'normalisation', 'P(true)', **tol)
    for _ in range(2):
        en = gen.subset(rng, w.names, 0, 3)
        E, Ev = gen.event(rng, w, t, en)
        pe = P(E)
        if pe < 1e-4:
            continue
        ctx.close(P({}, E), 1, 'normalisation', 'P(true | E)', evidence=E, **tol)
        ctx.close(P(E, E), 1, 'P(E | E) = 1', 'P(E | E)', evidence=E, **tol)
        # domains are exhausted by their values
        for v in t.variables:
            full = {v.name: ref.to_numberset([(-np.inf, np.inf, False, False)]) if v.numeric else set(ref.labels_of(v))}
            ctx.close(P(full, E), 1, 'normalisation', 'P(v in dom(v))', var=v.name, evidence=E, **tol)
        nm = str(rng.choice(w.names))
        v = w.var(nm)
        rest = [x for x in gen.subset(rng, w.names, 0, 2) if x != nm]
        B, Bv = gen.event(rng, w, t, rest)
        parts = partition(rng, w, t, v)
        # additivity / total probability
        pb = P(B, E)
        ps = [P({**B, nm: part}, E) for part in parts]
        ctx.count('total probability')
        ctx.close(sum(ps), pb, 'total probability', 'sum over a partition', parts=parts, query=B, evidence=E, **tol)
        if len(parts) > 1:
            ctx.count('complement')
            k = int(rng.integers(1, len(parts)))
            if v.numeric:
                union = ref.to_numberset(ref.normalise([x for p in parts[:k] for x in ref.from_numberset(p)]))
            else:
                union = set().union(*parts[:k])
            pu = P({**B, nm: union}, E)
            ctx.count('additivity')
            ctx.close(pu, sum(ps[:k]), 'additivity', 'union of disjoint events', union=union, parts=parts[:k],
                      query=B, evidence=E, **tol)
            ctx.count('monotonicity')
            ctx.check(pu >= ps[0] - 2e-6, 'monotonicity', f'{pu} < {ps[0]}', union=union, part=parts[0])
        # conjunction is at most as probable as its parts
        A, Av = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 3))
        pa = P(A, E)
        fewer = {k: x for k, x in A.items() if rng.random() < .5}
        ctx.check(P(fewer, E) >= pa - 2e-6, 'monotonicity', 'dropping constraints lowers the probability',
                  query=A, fewer=fewer, evidence=E)
        # chain rule P(A, B | E) = P(A | B, E) P(B | E)
        J = {**A}
        names = set(A) & set(B)
        B2 = {k: x for k, x in B.items() if k not in A and k not in E}
        if B2:
            pb2 = P(B2, E)
            if pb2 > 1e-4:
                joint = P({**A, **B2}, E)
                cond = P(A, {**E, **B2})
                ctx.count('chain rule')
                ctx.close(joint, cond * pb2, 'chain rule', 'P(A,B|E) vs P(A|B,E) P(B|E)', A=A, B=B2, E=E, **tol)
                if pa > 1e-4 and not set(A) & set(E):
                    ctx.count('bayes')
                    ctx.close(P(B2, {**E, **A}) * pa, cond * pb2, 'bayes', 'P(B|A,E) P(A|E) vs P(A|B,E) P(B|E)',
                              A=A, B=B2, E=E, **tol)
        # P(A | E) P(E) = P(A and E) on the same variable
        nm = str(rng.choice(w.names))
        v = w.var(nm)
        S, Sv = gen.event(rng, w, t, [nm], multi=.6) if v.numeric else gen.event(rng, w, t, [nm])
        Q, Qv = gen.event(rng, w, t, [nm], multi=.6) if v.numeric else gen.event(rng, w, t, [nm])
        ps_ = P(S)
        if ps_ > 1e-4:
            if v.numeric:
                # bounds that the scaling rounds may fall on the other side of a point mass
                both = [i for i in ref.intersect(Qv[nm], Sv[nm]) if not ref.is_empty(i)] if ref.affine(v) == (0., 1.) else []
                thin = any(hi - lo <= 1e-6 * (1e-3 + max(abs(lo), abs(hi))) for lo, hi, _, _ in both)
                both = ref.to_numberset(both) if both and not thin else None
            else:
                both = Qv[nm] & Sv[nm]
            if both:
                ctx.count('the same variable')
                ctx.close(P(Q, S) * ps_, P({nm: both}), 'product rule on one variable', 'P(A|E) P(E) vs P(A and E)', A=Q, E=S, **tol)
        # P(A | E) = P(A, E) / P(E) without shared variables
        A2 = {k: x for k, x in A.items() if k not in E}
        ctx.close(P(A2, E) * pe, P({**A2, **E}), 'chain rule', 'P(A|E) P(E) vs P(A,E)', A=A2, E=E, **tol)
