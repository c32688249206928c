"""Views of a numeric distribution agree with each other."""
import numpy as np

from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC

from jpt.base.functions import ConstantFunction, PiecewiseFunction
from jpt.distributions.quantile.quantiles import QuantileDistribution

from vf import dists, gen, ref
from vf.checks.c11 import sane

PROPERTY = 'C12'
RULE = ('Random numeric distributions (plain and scaled; fitted, set from densities or CDFs with jumps and plateaus, '
        'impulses; cropped and merged in random histories; leaves of learned and conditioned trees). Segments of the CDF are read '
        'as numbers; cdf, pdf, ppf, p of points, intervals and unions, moments, expectation, variance, mpe and impulse '
        'tests are compared with them at knots, next to knots and in between. Non-trivial: a CDF with at least two '
        'pieces or a point mass besides others.')
CASES = {'quick': 10000, 'thorough': 60000}
REQUIRED = ['probabilities', 'probabilities of points', 'densities', 'quantiles', 'moments', 'scaled distributions', 'probabilities in label space',
            'distributions with point masses', 'impulses', 'distributions of leaves', 'distributions with gaps', 'mpe', 'distributions set again', 'densities with impulses', 'densities with several impulses', 'densities']
ASSUMPTIONS = ['magnitudes below 1e9', 'the quantile function of an impulse is defined at 1 only']


def setp(ctx, d, T, pl, ivs, user, tol):
    m, s = dists.scaling(T)
    want = pl.p(ivs)
    ctx.count('probabilities')
    ctx.close(d._p(user), want, 'probability is not the increment of the CDF', lambda: f'{user}', rel=1e-7, abs_=tol)
    if (m, s) != (0., 1.):
        lab = lambda i: ContinuousSet(i.lower * s + m, i.upper * s + m, i.left, i.right)
        shift = lambda e: 1e-12 * max(1., abs(e), abs(m / s))
        lu = RealSet([lab(i) for i in user.intervals]) if isinstance(user, RealSet) else lab(user)
        # rounding moves the ends: compare where that does not matter
        if not any(pl.F(e + shift(e)) - pl.Fm(e - shift(e)) > 1e-7 for iv in ivs for e in iv[:2] if np.isfinite(e)):
            ctx.count('probabilities in label space')
            ctx.close(d.p(lu), want, 'probability in label space differs', lambda: f'{lu}', rel=1e-5, abs_=1e-6)
    else:
        ctx.close(d.p(user), want, 'probability differs', lambda: f'{user}', rel=1e-7, abs_=tol)
        ctx.close(d[user], want, 'probability differs', lambda: f'{user}', rel=1e-7, abs_=tol)


def verify(ctx, rng, d, T, what):
    pl = ref.PL(d.cdf)
    sane(ctx, pl, what, 1e-8)
    tol = max(1e-9, 4 * pl.jump_tol())
    m, s = dists.scaling(T)
    cont, atoms = pl.pieces()
    kn = pl.knots
    lo, hi = kn[0], kn[-1]
    span = (hi - lo) or 1.
    if atoms:
        ctx.count('distributions with point masses')
    if any(not ref.coeffs(f)[0] for a, b, f in pl.segs[1:-1]):
        ctx.count('distributions with gaps')
    # -- CDF
    pts = dists.points(rng, pl)
    for x in pts:
        if not any(0 < abs(x - k) <= 1e-12 * max(1, abs(k)) for k in kn):
            ctx.close(d.cdf.eval(x), pl.F(x), 'cdf.eval() is not the value of its segment', lambda: f'{what} at {x}', abs_=1e-12)
    xs = sorted(pts)
    got = np.asarray(d.cdf.multi_eval(np.array(xs, dtype=np.float64)), dtype=float)
    ctx.check(np.allclose(got, [d.cdf.eval(x) for x in xs], atol=1e-12), 'multi_eval() differs from eval()', what)
    # -- probabilities
    for _ in range(6):
        ivs, user = dists.restriction(rng, pl)
        setp(ctx, d, T, pl, ivs, user, tol)
    for x in [float(v) for v in rng.choice(pts, 4)] + [a for a, _ in atoms[:3]]:
        ctx.count('probabilities of points')
        w = pl.F(x) - pl.Fm(x)
        w = w if w > tol else 0
        ctx.close(d._p(x), w, 'probability of a point is not the jump of the CDF', lambda: f'{what} at {x}', abs_=tol)
        ctx.close(d._p(ContinuousSet(x, x)), w, 'probability of a point is not the jump of the CDF', lambda: f'{what} at [{x}]', abs_=tol)
    ctx.close(d._p(ContinuousSet(-np.inf, np.inf, EXC, EXC)), 1, 'total mass is not one', what, abs_=1e-8)
    # -- density
    one = len(cont) == 0 and len(atoms) == 1
    ctx.check(bool(d.is_dirac_impulse()) == one or len(pl.segs) != 2 and one, 'wrong answer of is_dirac_impulse()', what)
    if d.is_dirac_impulse():
        ctx.count('impulses')
        ctx.close(d.ppf.eval(1.), atoms[0][0], 'quantile of an impulse', what)
    else:
        prev = -np.inf
        tot = 0.
        for i, f in zip(d.pdf.intervals, d.pdf.functions):
            ctx.check(i.lower == prev or prev == -np.inf, 'segments of the density are not contiguous', what)
            prev = i.upper
            v = f.eval(i.lower if np.isfinite(i.lower) else i.upper)
            ctx.check(v >= -1e-12, 'negative density', lambda: f'{what}: {v}')
            if np.isfinite(i.lower) and np.isfinite(i.upper) and np.isfinite(v):
                inc = pl.Fm(i.upper) - pl.F(i.lower)
                ctx.count('densities')
                ctx.close(v * (i.upper - i.lower), inc, 'density does not integrate to the increment of the CDF',
                          lambda: f'{what} in {i}', abs_=10 * tol)
                tot += v * (i.upper - i.lower)
        ctx.close(tot, 1 - sum(w for _, w in atoms), 'density does not integrate to the continuous mass', what, abs_=1e-7)
        for x in pts:
            if any(abs(x - k) <= 1e-9 * max(1, abs(k)) for k in kn):
                continue
            e = ref.leaf_density(pl, x)
            ctx.close(d.pdf.eval(x), e, 'density is not the slope of the CDF', lambda: f'{what} at {x}', abs_=1e-9)
        # -- quantiles
        levels = [0.] + sorted({pl.F(k) for k in kn} | {pl.Fm(k) for k in kn})
        steep = max([w / (b - a) for a, b, w in cont] or [0])
        for q in [float(v) for v in rng.uniform(0, 1, 8)] + [1.]:
            if q < 1 and any(abs(q - l) < 1e-7 for l in levels):
                continue
            ctx.count('quantiles')
            x = float(d.ppf.eval(q))
            ctx.check(np.isfinite(x), 'quantile is undefined', lambda: f'{what}: ppf({q}) = {x}')
            d0 = 1e-9 * max(1., abs(x), span)
            eps = 1e-7
            ctx.check(pl.F(x + d0) >= q - eps and pl.Fm(x - d0) <= q + eps, 'quantile function does not invert the CDF',
                      lambda: f'{what}: ppf({q}) = {x}, CDF is {pl.Fm(x)} .. {pl.F(x)} there')
            if q < 1:
                e = pl.quantile(q)
                flat = max(1e-9, min([w / (b - a) for a, b, w in cont if w > 0] or [1]))
                ctx.close(x, e, 'quantile differs', lambda: f'{what}: q={q}', rel=1e-6, abs_=1e-6 * span + 1e-9 / flat * 1e-3)
                ctx.check(float(d.quantile(q)) == x, 'quantile() differs from ppf', what)
    # -- moments
    mu = pl.moment(1, 0)
    amp = max(abs(lo), abs(hi), 1e-12)
    cond = amp / span        # differences of powers cancel if the support is far from the center
    for order in (1, 2, 3):
        for c in (0., mu, float(rng.normal(mu, span))):
            e = pl.moment(order, c)
            ref_scale = max(abs(lo - c), abs(hi - c)) ** order
            ctx.count('moments')
            rel = 1e-7 + 1e-14 * (1 + max(abs(lo - c), abs(hi - c)) / min([b - a for a, b, _ in cont] or [1]))
            if rel > 1e-3:
                continue
            ctx.close(d._moment(order, c), e, 'moment differs from the integral of the CDF', lambda: f'{what}: order {order}, center {c}',
                      rel=1e-6, abs_=rel * ref_scale + 1e-12)
            if (m, s) != (0., 1.):
                cl = c * s + m
                e = pl.moment(order, cl, lambda x: x * s + m)
                far = max(abs(lo * s + m), abs(hi * s + m), abs(cl))
                r2 = rel + 1e-13 * far / (s * min([b - a for a, b, _ in cont] or [span]))
                if r2 < 1e-3:
                    ctx.close(d.moment(order, cl), e, 'moment in label space differs', lambda: f'{what}: order {order}, center {cl}',
                              rel=1e-6, abs_=10 * r2 * (ref_scale * s ** order) + 1e-12)
    if min([b - a for a, b, _ in cont] or [1]) > 1e-9 * amp:
        ctx.close(d._expectation(), mu, 'expectation is not the first moment', what, rel=1e-6, abs_=1e-6 * amp)
        ctx.close(d.expectation(), mu * s + m, 'expectation in label space differs', what, rel=1e-6, abs_=1e-6 * (amp * s + abs(m)))
        var = pl.moment(2, mu)
        ctx.close(d._variance(), var, 'variance is not the central moment', what, rel=1e-5, abs_=1e-6 * span ** 2 + 1e-12)
        ctx.close(d.variance(), var * s * s, 'variance in label space differs', what, rel=1e-5, abs_=1e-6 * (s * span) ** 2 + 1e-12)
        ctx.check(lo - 1e-6 * amp <= d._expectation() <= hi + 1e-6 * amp, 'expectation outside of the support', what)
    # -- mpe
    if not d.is_dirac_impulse() and cont:
        state, like = d._mpe()
        # slopes: increments are rounded where pieces are only a few floating point numbers wide
        dens = [(ref.coeffs(f)[0], a, b) for a, b, f in pl.segs if np.isfinite(a) and np.isfinite(b) and b > a and ref.coeffs(f)[0] > 0]
        top = max(v for v, _, _ in dens)
        ctx.count('mpe')
        if np.isfinite(like):
            ctx.close(like, top, 'likelihood of the MPE is not the maximal density', what, rel=1e-6)
            want = ref.normalise([(a, b, True, True) for v, a, b in dens if v >= top * (1 - 1e-9)])
            gotm = sum(b - a for a, b, _, _ in ref.from_numberset(state))
            near = sum(b - a for v, a, b in dens if v >= top * (1 - 1e-6))
            ctx.check(gotm <= near * (1 + 1e-6) + 1e-12, 'MPE state contains points of lower density', lambda: f'{what}: {state}')
    if len(pl.segs) > 3 or (atoms and cont):
        ctx.nontrivial(len(pl.segs), len(atoms), round(mu, 6))


def densities(ctx, rng):
    """a density of rectangles, gaps and impulses that share the remaining mass"""
    T, _ = dists.numeric_type(rng)
    k = int(rng.integers(1, 7))
    pts = [float(x) for x in dists.steps(rng, k + 1, rng.normal(0, 2), float(rng.choice([.1, 1, 20])))]
    w = rng.dirichlet(np.ones(k)) * (rng.random(k) < .8)
    impulse = rng.random() < .7 or not w.sum()
    rest = (float(rng.uniform(.05, .95)) if w.sum() else 1.) if impulse else 0.
    if w.sum():
        w = w / w.sum() * (1 - rest)
    pdf = PiecewiseFunction.zero().overwrite({
        ContinuousSet(a, b, INC, EXC): float(p / (b - a)) for a, b, p in zip(pts, pts[1:], w)
    })
    at = []
    if impulse:
        for _ in range(int(rng.choice([1, 1, 2, 3]))):
            x = [pts[0] - float(rng.uniform(.1, 2)), pts[-1] + float(rng.uniform(.1, 2)), float(rng.choice(pts)), float(rng.uniform(pts[0], pts[-1]))][int(rng.integers(4))]
            if all(abs(x - y) > 1e-4 for y in at):
                at.append(x)
        for x in at:
            pdf = pdf.overwrite_at(ContinuousSet(x, float(np.nextafter(x, np.inf)), INC, EXC), ConstantFunction(np.inf))
    before = str(pdf)
    d = T().set(QuantileDistribution.from_pdf(pdf))
    what = f'masses {w} between {pts}, {rest} at {at}'
    ctx.check(str(pdf) == before, 'integrating a density changes it', what)

    def F(x, left=False):
        return sum(p * min(1., max(0., (x - a) / (b - a))) for a, b, p in zip(pts, pts[1:], w)) + sum(
            rest / len(at) for y in at if x > y or x == y and not left)
    ks = sorted(set(pts) | set(at))
    pl = ref.PL(d.cdf)
    for x in ks + [(a + b) / 2 for a, b in zip(ks, ks[1:])] + [ks[0] - 1, ks[-1] + 1]:
        ctx.close(d._quantile.cdf.eval(x), F(x), 'CDF is not the integral of the density', lambda: f'{what}: at {x}', abs_=1e-7)
        ctx.close(pl.Fm(x), F(x, True), 'CDF is not the integral of the density', lambda: f'{what}: left of {x}', abs_=1e-7)
    ctx.count('densities with several impulses' if len(at) > 1 else 'densities with impulses' if impulse else 'densities')
    verify(ctx, rng, d, T, what)


def case(ctx):
    rng = ctx.rng
    if rng.random() < .06:
        return densities(ctx, rng)
    if rng.random() < .25:
        w, t = gen.world_tree(rng)
        num = [v for v in w.variables if v.numeric]
        if not num:
            return
        if rng.random() < .5:
            eu, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
            mix = ref.Mixture(t)
            if mix.p(ev) > 1e-3 and not ref.ill_conditioned(mix, ev):
                t = t.conditional_jpt(eu)
        leaves = list(t.leaves.values())
        for leaf in [leaves[i] for i in rng.choice(len(leaves), size=min(2, len(leaves)), replace=False)]:
            v = num[int(rng.integers(len(num)))]
            ctx.count('distributions of leaves')
            verify(ctx, rng, leaf.distributions[v], v.domain, f'leaf {leaf.idx}, {v.name}')
        return
    T, x = dists.numeric_type(rng)
    trace = []
    d = dists.numeric(rng, T, x, depth=int(rng.integers(0, 4)), trace=trace)
    ctx.note = {'history': trace, 'domain': T.__name__}
    if dists.scaling(T) != (0., 1.):
        ctx.count('scaled distributions')
    verify(ctx, rng, d, T, 'distribution')
    if rng.random() < .35:
        reuse(ctx, rng, d, T, x, trace)


def reuse(ctx, rng, d, T, x, trace):
    """the distribution, with all its views computed, takes another shape"""
    d._expectation(), hash(d._quantile), d._quantile.jumps(), d.is_dirac_impulse(), d.number_of_parameters()
    other = dists.numeric(rng, T, x, depth=1)
    if rng.random() < .5:
        other.ppf, other._expectation()
    q, r = d._quantile, rng.random()
    m, s = dists.scaling(T)
    if r < .2:
        trace.append('fitted again')
        v = (np.asarray(x)[rng.choice(len(x), size=int(rng.integers(1, len(x) + 1)), replace=False)] - m) / s
        data = np.ascontiguousarray(v.reshape(-1, 1))
        if rng.random() < .5:
            d._fit(data, None, 0)
        else:
            q.fit(data, None, 0)
    elif r < .4:
        trace.append('set')
        d.set(other._quantile)
    elif r < .55:
        trace.append('cdf assigned')
        q.cdf = other._quantile.cdf
    elif r < .7 and not ref.PL(other.cdf).atoms():
        trace.append('pdf assigned')
        q.pdf = other._quantile.pdf
        other = None if other.is_dirac_impulse() else other
    elif r < .85:
        trace.append('updated')
        w = float(rng.choice([0, .3, .9, 1]))
        pls = [ref.PL(d.cdf), ref.PL(other.cdf)]
        d.update(other, w)
        for k in {k for p in pls for k in p.knots}:
            ctx.close(ref.PL(d.cdf).F(k), (1 - w) * pls[0].F(k) + w * pls[1].F(k), 'update is not the mixture', lambda: f'weight {w} at {k}', abs_=1e-6)
        other = None
    else:
        trace.append('impulse')
        v = float((rng.choice(x) - m) / s)
        d.create_dirac_impulse(v)
        ctx.check(d.is_dirac_impulse() and d._expectation() == v and d.ppf.eval(1.) == v and d._p(v) == 1, 'impulse is somewhere else', lambda: str(v))
        other = None
    if other is not None and trace[-1] in ('set', 'cdf assigned', 'pdf assigned'):
        a, b = ref.PL(d.cdf), ref.PL(other.cdf)
        for k in b.knots:
            ctx.close(a.F(k), b.F(k), 'another CDF than the one that was set', lambda: f'{trace} at {k}', abs_=1e-6)
    ctx.count('distributions set again')
    verify(ctx, rng, d, T, 'distribution set again')
