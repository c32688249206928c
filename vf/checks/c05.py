"""Impossible evidence is recognised consistently by all queries."""
import numpy as np

from jpt.base.errors import Unsatisfiability

from vf import gen, ref
from vf.core import Violation

PROPERTY = 'C05'
RULE = ('Random learned (or conditioned) tree and random evidence, biased towards evidence without support: values '
        'outside of the data, label sets that do not occur, gaps between point masses, combinations of variables that no '
        'leaf supports, and towards narrow intervals (probabilities down to 1e-30). infer, posterior, expectation, moment, mpe, kmpe and conditional_jpt are asked with and without '
        'fail_on_unsatisfiability. Evidence at the level of rounding errors is not judged. Non-trivial: evidence whose '
        'variables are all possible on their own, but not together, or evidence that is possible.')
CASES = {'quick': 3000, 'thorough': 40000}
REQUIRED = ['impossible evidence', 'possible evidence', 'jointly impossible evidence', 'rare evidence', 'reasons checked']


def dilate(ivs, f=1e-7):
    return ref.normalise([(lo - f * (1e-3 + abs(lo)) if np.isfinite(lo) else lo,
                           hi + f * (1e-3 + abs(hi)) if np.isfinite(hi) else hi, lc or np.isfinite(lo),
                           hc or np.isfinite(hi)) for lo, hi, lc, hc in ivs])


def impossible_event(rng, w, t, var):
    if var.numeric:
        m, s = ref.affine(var)
        pts = sorted(set(gen.interesting_points(rng, w, t, var)))
        lo, hi = pts[0], pts[-1]
        span = hi - lo + 1.
        k = rng.integers(3)
        if k == 0:
            a, b = hi + span * .1, hi + span * rng.uniform(.2, 2)
        elif k == 1:
            a, b = lo - span * rng.uniform(1, 2), lo - span * .1
        else:
            j = int(rng.integers(len(pts) - 1)) if len(pts) > 1 else 0
            a, b = (pts[j], pts[j + 1]) if len(pts) > 1 else (hi + 1, hi + 2)
            a, b = a + .1 * (b - a), b - .1 * (b - a)
        parts = [(a, b, True, True)]
        if rng.random() < .3:
            parts.append((hi + span * 3, np.inf, False, False))
        if not all(a < b for a, b, _, _ in parts):
            parts = [(hi + 1., hi + 2., True, True)]
        val = ref.normalise([((a - m) / s, (b - m) / s, lc, hc) for a, b, lc, hc in parts])
        user = ref.to_numberset(ref.normalise(parts))
        if len(parts) == 1 and rng.random() < .3:
            user = [parts[0][0], parts[0][1]]
        return user, val
    labs = ref.labels_of(var)
    c = set(w.cols[var.name])
    missing = [l for l in labs if l not in c]
    pool = missing if missing and rng.random() < .6 else labs
    k = int(rng.integers(1, min(len(pool), 2) + 1))
    sub = {pool[i] for i in rng.choice(len(pool), k, replace=False)}
    return (set(sub) if rng.random() < .6 or k > 1 else next(iter(sub))), sub


def outcome(f):
    """('unsat', None) | ('none', None) | ('answer', x)"""
    try:
        r = f()
    except Unsatisfiability as e:
        return 'unsat', e
    except ValueError as e:
        if 'unsatisfiable' in str(e):
            return 'unsat', e
        raise
    return ('none', None) if r is None else ('answer', r)


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    if rng.random() < .25:
        eu, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        m = ref.Mixture(t)
        if m.p(ev) > 1e-3 and not ref.ill_conditioned(m, ev):
            t = t.conditional_jpt(t.bind(eu))
            ctx.count('conditional trees')
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    for k in range(5):
        names = gen.subset(rng, w.names, 1, 4)
        eu, ev = {}, {}
        rare = k == 4
        for n in names:
            v = w.var(n)
            r = gen.rare_event(rng, t, v) if rare and v.numeric and rng.random() < .7 else None
            if r is not None:
                eu[n], ev[n] = r
            elif rng.random() < (.1 if rare else .5):
                eu[n], ev[n] = impossible_event(rng, w, t, v)
            elif v.numeric:
                eu[n], ev[n] = gen.numeric_event(rng, w, t, v)
            else:
                eu[n], ev[n] = gen.discrete_event(rng, v)
        big = {n: dilate(e) if isinstance(e, list) else e for n, e in ev.items()}
        pe = mix.p(ev)
        zero = all(any(mix.leaf_p(m, {n: e}) == 0 for n, e in big.items()) for m in mix.leaves)
        if not zero and (pe < 1e-40 or ref.ill_conditioned(mix, ev) or ref.ill_conditioned(mix, big)):
            ctx.count('evidence not judged')
            continue
        ctx.count('impossible evidence' if zero else 'possible evidence')
        if zero and all(mix.p({n: e}) > 1e-6 for n, e in ev.items()):
            ctx.count('jointly impossible evidence')
            ctx.nontrivial('joint', len(t.leaves), sorted(map(str, eu.items())))
        if not zero:
            if pe < 1e-6:
                ctx.count('rare evidence')
            ctx.nontrivial('possible', float('%.6g' % pe))
        qu, qv = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        for fail in (True, False):
            calls = {
                'infer': lambda: t.infer(dict(qu), gen.as_arg(rng, t, eu), fail_on_unsatisfiability=fail),
                'posterior': lambda: t.posterior(evidence=gen.as_arg(rng, t, eu), fail_on_unsatisfiability=fail),
                'expectation': lambda: t.expectation(list(t.variables), gen.as_arg(rng, t, eu),
                                                     fail_on_unsatisfiability=fail),
                'moment': lambda: t.moment(1, evidence=t.bind(dict(eu)), fail_on_unsatisfiability=fail),
                'mpe': lambda: t.mpe(gen.as_arg(rng, t, eu), fail_on_unsatisfiability=fail),
                'kmpe': lambda: list(t.kmpe(gen.as_arg(rng, t, eu), fail_on_unsatisfiability=fail, k=2)) or None,
                'conditional_jpt': lambda: t.conditional_jpt(gen.as_arg(rng, t, eu), fail_on_unsatisfiability=fail),
            }
            for name, f in calls.items():
                if not zero and rng.random() < .5:
                    continue
                kind, r = outcome(f)
                want = ('unsat' if fail else 'none') if zero else 'answer'
                ctx.count(f'{name}: {kind}')
                ctx.check(kind == want, f'{name}: {"impossible" if zero else "possible"} evidence not recognised',
                          f'{kind} instead of {want} for {eu} (fail_on_unsatisfiability={fail}, P={pe}): {r}',
                          world=ctx.note)
                if kind == 'answer' and name == 'infer':
                    ctx.check(np.isfinite(r), 'infer: not a number', repr(r))
        if zero:
            # the reasons that are reported are unsupported parts of the evidence
            try:
                t.posterior(evidence=dict(eu), report_inconsistencies=True)
                raise Violation('posterior: impossible evidence not recognised', 'with reasons')
            except Unsatisfiability as e:
                reasons = list(e.reasons)
            ls = [l for l, _ in reasons]
            ctx.check(ls == sorted(ls, reverse=True) and all(l > 0 and np.isfinite(l) for l in ls),
                      'reasons are not ordered by likelihood', str(ls))
            for l, r in reasons:
                ctx.count('reasons checked')
                ctx.check(len(r) and {v.name for v in r.keys()} <= set(ev), 'reason is not part of the evidence', str(r))
                rs = {}
                for v, x in r.items():
                    if v.numeric:
                        m, s = ref.affine(v)
                        ivs = [((a - m) / s, (b - m) / s, lc, hc) for a, b, lc, hc in ref.from_numberset(x)]
                        ctx.check(not ref.intersect(ivs, ref.complement(big[v.name])),
                                  'reason is not part of the evidence', f'{x} vs {eu[v.name]}')
                        rs[v.name] = ivs
                    else:
                        x = set(x) if isinstance(x, (set, frozenset)) else {x}
                        ctx.check(x <= ev[v.name], 'reason is not part of the evidence', f'{x} vs {eu[v.name]}')
                        rs[v.name] = x
                # a leaf that contradicts exactly these parts
                ok = False
                for m in mix.leaves:
                    bad = {n for n in ev if mix.leaf_p(m, {n: ev[n]}) < 1e-9}
                    must = {n for n in ev if mix.leaf_p(m, {n: big[n]}) == 0}
                    if must <= set(rs) <= bad:
                        ok = True
                ctx.check(ok, 'reason does not match any leaf', f'{r}', evidence=str(eu))
