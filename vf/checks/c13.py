"""Cropping a distribution is conditioning."""
import json

import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC

from vf import dists, gen, ref
from vf.checks.c11 import sane

PROPERTY = 'C13'
RULE = ('Chains of one to three crops of random numeric, symbolic, boolean and integer distributions to points, intervals, '
        'unions and label sets, in value and label space, also to sets without mass; every event probability of the '
        'result is compared with D(A and r) / D(r) computed from the numbers of the original, together with the support, '
        'the normalisation and the state of the original. Non-trivial: the restriction has mass strictly between 0 and 1.')
CASES = {'quick': 20000, 'thorough': 120000}
REQUIRED = ['numeric crops', 'crops to unions', 'crops to points', 'crops with point masses', 'symbolic crops', 'integer crops',
            'single labels', 'impossible restrictions', 'second crops', 'crops in label space', 'equivalent restrictions']
ASSUMPTIONS = ['restrictions of numeric distributions carry more than 1e-3 of the mass, or none at all',
               'single points restrict to an impulse at the point if it lies in the support']


def far(pl, ivs):
    """no mass in the restriction, not even within rounding distance"""
    for lo, hi, lc, hc in ivs:
        d = 1e-9 * max(1., *[abs(e) for e in (lo, hi) if np.isfinite(e)] or [1.])
        if pl.p([(lo - d, hi + d, True, True)]) > 0:
            return False
    return True


def numeric(ctx, rng):
    T, x = dists.numeric_type(rng)
    trace = []
    d = dists.numeric(rng, T, x, depth=int(rng.integers(0, 3)), trace=trace)
    m, s = dists.scaling(T)
    ctx.note = {'history': trace}
    pl0 = ref.PL(d.cdf)
    acc = None
    for step in range(int(rng.integers(1, 4))):
        cur = ref.PL(d.cdf)
        ivs, user = dists.restriction(rng, cur, point=.2)
        if isinstance(user, ContinuousSet) and user.lower == user.upper and rng.random() < .5:
            user = float(user.lower)
        before = json.dumps(d.to_json(), default=str)
        p = cur.p(ivs)
        pts = [e for iv in ivs for e in iv[:2] if iv[0] == iv[1]]
        what = f'{user}'
        if p == 0 and far(cur, ivs):
            ctx.count('impossible restrictions')
            try:
                r = d._crop(user)
            except Unsatisfiability:
                pass
            else:
                ctx.check(False, 'crop to an impossible set is not unsatisfiable', lambda: f'{what}: {r.cdf.pfmt()}', cdf=d.cdf.pfmt())
            ctx.check(json.dumps(d.to_json(), default=str) == before, 'crop changes the original', what)
            continue
        single = len(ivs) == 1 and ivs[0][0] == ivs[0][1]
        if single:
            x0 = ivs[0][0]
            if not any(a <= x0 <= b for a, b, _ in cur.pieces()[0]) and not any(x0 == a for a, _ in cur.atoms(1e-9)):
                continue        # on the brink of the support
        elif p < 1e-3 or dists.weak(cur, ivs):
            continue
        if rng.random() < .4 and (m, s) != (0., 1.):
            lab = lambda i: ContinuousSet(i.lower * s + m, i.upper * s + m, i.left, i.right)
            lu = RealSet([lab(i) for i in user.intervals]) if isinstance(user, RealSet) else \
                user * s + m if isinstance(user, float) else lab(user)
            shift = lambda e: 1e-12 * max(1., abs(e), abs(m / s))
            if any(cur.F(e + shift(e)) - cur.Fm(e - shift(e)) > 1e-7 for iv in ivs for e in iv[:2] if np.isfinite(e)) or single:
                continue
            r = d.crop(lu)
            ctx.count('crops in label space')
            tol = 1e-6
        else:
            r = d._crop(user)
            tol = 1e-7
        ctx.count('numeric crops')
        if step:
            ctx.count('second crops')
        ctx.check(type(r) is type(d), 'crop yields another type', str(type(r)))
        ctx.check(json.dumps(d.to_json(), default=str) == before, 'crop changes the original', what)
        pr = ref.PL(r.cdf)
        sane(ctx, pr, what, 1e-8)
        if single:
            ctx.count('crops to points')
            ctx.check(len(pr.segs) == 2 and abs(pr.knots[0] - x0) <= 1e-12 * max(1, abs(x0)), 'crop to a point is no impulse there', what)
            d = r
            continue
        if len(ivs) > 1:
            ctx.count('crops to unions')
        if cur.atoms(1e-9):
            ctx.count('crops with point masses')
        if p < 1 - 1e-9:
            ctx.nontrivial(len(trace), step, round(p, 9), what)
        ctx.close(r._p(ContinuousSet(-np.inf, np.inf, EXC, EXC)), 1, 'cropped distribution is not normalised', what, abs_=1e-8)
        ctx.close(r._p(user), 1, 'restriction is not certain after the crop', what, abs_=max(tol, 1e-6))
        for _ in range(6):
            a, ua = dists.restriction(rng, cur if rng.random() < .6 else pr)
            want = cur.p(ref.intersect(a, ivs)) / p
            # ends within rounding distance of a jump or of the ends of the restriction are undecided
            und = 0.
            for e in {e for iv in a for e in iv[:2] if np.isfinite(e)}:
                dl = 1e-12 * max(1., abs(e), abs(m / s) if tol == 1e-6 else 0)
                near = [k for k in pr.knots + cur.knots if 0 < abs(k - e) <= dl]
                if near:
                    und += max(pr.F(e + dl) - pr.Fm(e - dl), cur.F(e + dl) - cur.Fm(e - dl))
            ctx.close(r._p(ua), want, 'crop is not conditioning', lambda: f'P({ua} | {what})', rel=1e-6,
                      abs_=tol / p + 1e-7 + und, cdf=d.cdf.pfmt(), cropped=r.cdf.pfmt())
        # the way the restriction is written does not matter
        if len(ivs) == 1 and rng.random() < .3:
            lo, hi, lc, hc = ivs[0]
            mid = float(rng.uniform(max(lo, cur.knots[0] - 1), min(hi, cur.knots[-1] + 1)))
            if lo < mid < hi and not any(abs(mid - k) <= 1e-9 * max(1, abs(k)) for k in cur.knots):
                lb, rb = (INC if lc else EXC), (INC if hc else EXC)
                alt = RealSet([ContinuousSet(lo, mid, lb, EXC), ContinuousSet(mid, hi, INC, rb)])
                ctx.count('equivalent restrictions')
                r2 = d._crop(alt)
                for _ in range(3):
                    a, ua = dists.restriction(rng, pr)
                    ctx.close(r2._p(ua), r._p(ua), 'crop depends on how the restriction is written', lambda: f'{alt} and {what}', abs_=1e-6)
        d = r


def discrete(ctx, rng):
    d, probs, labs = dists.discrete(rng)
    kind = 'integer' if hasattr(type(d), 'lmin') else 'symbolic'
    k = len(labs)
    ctx.note = {'kind': kind, 'probabilities': {str(a): b for a, b in probs.items()}}
    cur = dict(probs)
    for step in range(int(rng.integers(1, 4))):
        sub = [labs[i] for i in rng.choice(k, size=int(rng.integers(1, k + 1)), replace=False)]
        vals = [labs.index(l) for l in sub]
        p = sum(cur[l] for l in sub)
        before = [float(v) for v in d.probabilities]
        single = len(sub) == 1 and rng.random() < .6
        value = rng.random() < .5
        arg = (vals if value else sub)
        arg = arg[0] if single else set(arg) if rng.random() < .6 else list(arg) if rng.random() < .5 else tuple(arg)
        if value and rng.random() < .3 and single:
            arg = np.int64(arg)
        fn = d._crop if value else d.crop
        what = f'{"value" if value else "label"} {arg!r}'
        if single:
            ctx.count('single labels')
        if p == 0:
            ctx.count('impossible restrictions')
            try:
                r = fn(arg)
            except Unsatisfiability:
                pass
            else:
                ctx.check(False, 'crop to impossible labels is not unsatisfiable', lambda: f'{what}: {list(r.probabilities)}', kind=kind)
            ctx.check([float(v) for v in d.probabilities] == before, 'crop changes the original', what)
            continue
        if p < 1e-9:
            continue
        r = fn(arg)
        ctx.count(f'{kind} crops')
        if step:
            ctx.count('second crops')
        ctx.check(r is not d, 'crop returns the original', what)
        ctx.check(type(r) is type(d), 'crop yields another type', str(type(r)))
        ctx.check([float(v) for v in d.probabilities] == before, 'crop changes the original', what)
        new = {l: (cur[l] / p if l in sub else 0.) for l in labs}
        for l in labs:
            ctx.close(r.p(l), new[l], 'crop is not conditioning', lambda: f'P({l} | {what})', abs_=1e-9, kind=kind)
        ctx.close(sum(r.probabilities), 1, 'cropped distribution is not normalised', what)
        if p < 1 - 1e-9:
            ctx.nontrivial(kind, k, step, round(p, 9))
        # no aliasing
        if rng.random() < .2:
            r.probabilities[:] = 0
            ctx.check([float(v) for v in d.probabilities] == before, 'crop shares its parameters with the original', what)
            return
        d, cur = r, new


def case(ctx):
    if ctx.rng.random() < .6:
        numeric(ctx, ctx.rng)
    else:
        discrete(ctx, ctx.rng)
