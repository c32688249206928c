"""Arithmetic on distributions is arithmetic of random variables."""
import json

import numpy as np

from jpt.base.functions import ConstantFunction, LinearFunction
from jpt.distributions import Numeric
from jpt.distributions.univariate.integer import IntegerType

from vf import dists, gen, ref
from vf.checks.c11 import sane

PROPERTY = 'C15'
RULE = ('Sums of two or three integer distributions against the convolution of their probabilities; sums of numeric '
        'distributions (densities with gaps, fitted, cropped, impulses, point masses) against the closed form of the '
        'convolved CDF at all sums of breakpoints; cumulative sums; approximations of densities and CDFs against the '
        'original: breakpoints kept, mass kept, mean absolute error of each segment, number of segments; Jaccard '
        'similarity against integrals of minimum and maximum. Non-trivial: operands with at least two pieces or labels.')
CASES = {'quick': 2500, 'thorough': 60000}
REQUIRED = ['integer sums', 'numeric sums', 'sums with impulses', 'sums with point masses', 'cumulative sums', 'density approximations',
            'cdf approximations', 'segments replaced', 'negative labels', 'similarities', 'gaps', 'equal densities',
            'point masses kept']
ASSUMPTIONS = ['sums of numeric distributions are piecewise linear CDFs, so they are compared at the sums of breakpoints']


def state(d):
    return json.dumps(d.to_json(), default=str)


def parts(pl):
    """[(lo, hi, density)], [(x, weight)]"""
    return [(lo, hi, m / (hi - lo)) for lo, hi, m in mass(pl)], pl.atoms(1e-9)


def mass(pl):
    out = []
    for lo, hi, f in pl.segs:
        if np.isfinite(lo) and np.isfinite(hi) and hi > lo:
            m = ref.seg_eval(f, hi) - ref.seg_eval(f, lo)
            if m > 0:
                out.append((lo, hi, m))
    return out


def partial(pl, t):
    """E[max(t - Y, 0)], i.e. the integral of the CDF up to t"""
    r = 0.
    for lo, hi, m in mass(pl):
        if t >= hi:
            r += m * (t - (lo + hi) / 2)
        elif t > lo:
            r += m * (t - lo) ** 2 / (hi - lo) / 2
    return r + sum(w * (t - x) for x, w in pl.atoms(1e-9) if x < t)


def conv_cdf(px, py, z):
    r = 0.
    for lo, hi, m in mass(px):
        r += m * (partial(py, z - lo) - partial(py, z - hi)) / (hi - lo)
    return r + sum(w * py.F(z - x) for x, w in px.atoms(1e-9))


def small(ctx, rng, T, x, atoms=False):
    """a distribution of few pieces"""
    for _ in range(6):
        d = dists.numeric(rng, T, x, depth=int(rng.integers(0, 2)), atoms=atoms)
        pl = ref.PL(d.cdf)
        if len(pl.segs) <= 9 and min([h - l for l, h, _ in mass(pl)] + [np.inf]) > 1e-6 * max(1, max(abs(k) for k in pl.knots)):
            return d
    return dists.from_pdf(rng, T)


def integers(ctx, rng):
    ds, tabs = [], []
    for i in range(int(rng.choice([2, 2, 3]))):
        lo = int(rng.choice([-6, -3, -1, 0, 1, 4]))
        T = IntegerType(gen.uid('J'), lo, lo + int(rng.integers(0, 7)))
        d, p, labs = dists.discrete_of(rng, T)
        ds.append(d)
        tabs.append(p)
        ctx.count('negative labels', int(lo < 0))
    if rng.random() < .15:
        ds[1], tabs[1] = ds[0], tabs[0]
    ctx.note = {'operands': tabs}
    before = [state(d) for d in ds]
    r, tab = ds[0], dict(tabs[0])
    for d, t in zip(ds[1:], tabs[1:]):
        name = rng.random() < .3
        r = r.add(d, name='X') if name else r + d
        out = {}
        for a, pa in tab.items():
            for b, pb in t.items():
                out[a + b] = out.get(a + b, 0) + pa * pb
        tab = out
        ctx.count('integer sums')
        ctx.check((r.lmin, r.lmax) == (min(tab), max(tab)), 'sum of integers has the wrong domain', f'{r.lmin}..{r.lmax}')
        ctx.check(list(r.labels.values()) == list(range(min(tab), max(tab) + 1)), 'sum of integers has the wrong labels', '')
    ctx.check([state(d) for d in ds] == before, 'addition changes its operands', '')
    for z, p in tab.items():
        ctx.close(r.p(z), p, 'sum of integers is not the convolution', lambda: f'P({z})', abs_=1e-12)
    mean = sum(z * p for z, p in tab.items())
    ctx.close(r.expectation(), sum(d.expectation() for d in ds), 'expectation of a sum is not the sum of expectations', '', abs_=1e-9)
    ctx.close(r.variance(), sum(sum(z * z * p for z, p in t.items()) - sum(z * p for z, p in t.items()) ** 2 for t in tabs),
              'variance of a sum is not the sum of variances', '', abs_=1e-8)
    ctx.close(r.expectation(), mean, 'expectation of a sum', '', abs_=1e-9)
    s = ds[0].add(ds[1])
    o = ds[1].add(ds[0])
    for z in range(s.lmin, s.lmax + 1):
        ctx.close(s.p(z), o.p(z), 'addition is not commutative', str(z), abs_=1e-12)
    if len(tab) > 2:
        ctx.nontrivial('int', [round(p, 6) for p in tab.values()])


def kinks(pl):
    """the points where the density changes"""
    out = set()
    prev = (None, -np.inf, 0.)
    for lo, hi, m in mass(pl) + [(np.inf, np.inf, 0.)]:
        d = m / (hi - lo) if m else 0.
        if lo != prev[1] or abs(d - prev[2]) > 1e-9 * d:
            out |= {e for e in (prev[1], lo) if np.isfinite(e)}
        prev = (lo, hi, d)
    return sorted(out)


def check_sum(ctx, r, px, py, what, exact=False):
    pr = ref.PL(r.cdf)
    sane(ctx, pr, what)
    # between the kinks the sum of the continuous parts is linear, point masses add exact copies
    ax, ay = px.atoms(1e-9), py.atoms(1e-9)
    knots = sorted({a + b for a in kinks(px) or [x for x, _ in ax] for b in kinks(py) or [y for y, _ in ay]})
    big = max([1] + [abs(k) for k in knots] + [abs(k) for p in (px, py) for k in p.knots])
    d = 1e-11 * big
    steep = max([0] + [m / (h - l) for p in (px, py) for l, h, m in mass(p)])
    tol = 1e-8 + 2e-10 * steep * big
    lo, hi = px.knots[0] + py.knots[0], px.knots[-1] + py.knots[-1]
    if not ax and not ay:
        lo, hi = knots[0], knots[-1]
    ctx.check(pr.F(lo - d) <= tol, 'sum has mass below the least sum', lambda: f'{what}: {pr.F(lo - d)} below {lo}')
    ctx.close(pr.F(hi + d), 1, 'sum has mass above the greatest sum', what, abs_=tol)
    for x, w in ax:
        for y, v in ay:
            got = pr.F(x + y + d) - pr.Fm(x + y - d)
            ctx.check(got >= w * v - tol, 'sum loses point masses', lambda: f'{what}: {got} at {x + y} instead of {w * v}')
    for z in knots[:80]:
        if any(0 < abs(k - z) <= 4 * d for k in knots):
            continue    # knots within rounding distance
        for q in (z - d, z + d):
            ctx.close(pr.F(q), conv_cdf(px, py, q), 'sum is not the convolution', lambda: f'{what}: CDF at {q}', abs_=tol,
                      x=px.segs, y=py.segs, result=pr.segs)
    if exact:       # one operand is an impulse: everything moves
        for z in ctx.rng.uniform(lo, hi, 6) if hi > lo else []:
            z = float(z)
            ctx.close(pr.F(z), conv_cdf(px, py, z), 'adding a constant does not shift the distribution',
                      lambda: f'{what}: CDF at {z}', abs_=tol + 1e-9 * steep)


def numerics(ctx, rng):
    T, x = dists.numeric_type(rng, scaled=0)
    mode = rng.choice(['density', 'impulse', 'atoms'], p=[.6, .2, .2])
    a = small(ctx, rng, T, x, atoms=mode != 'density')
    if mode == 'impulse':
        b = dists.dirac(rng, T, x)
    else:
        b = small(ctx, rng, T, x, atoms=mode != 'density')
    if rng.random() < .5:
        a, b = b, a
    pa, pb = ref.PL(a.cdf), ref.PL(b.cdf)
    ctx.note = {'mode': str(mode), 'a': a.cdf.pfmt(), 'b': b.cdf.pfmt()}
    before = state(a), state(b)
    r = a + b
    ctx.check((state(a), state(b)) == before, 'addition changes its operands', '')
    ctx.check(type(r) is type(a), 'sum has another type', str(type(r)))
    imp = a.is_dirac_impulse() or b.is_dirac_impulse()
    ctx.count('numeric sums')
    ctx.count('sums with impulses', int(imp))
    ctx.count('sums with point masses', int(not imp and bool(pa.atoms(1e-9) or pb.atoms(1e-9))))
    ctx.count('gaps', int(any(hi < lo2 for p in (pa, pb) for (_, hi, _), (lo2, _, _) in zip(mass(p), mass(p)[1:]))))
    check_sum(ctx, r, pa, pb, f'{mode} sum', exact=imp)
    if imp:
        ctx.close(r._expectation(), a._expectation() + b._expectation(), 'adding a constant does not shift the mean', '',
                  abs_=1e-8 * max(1, abs(a._expectation()), abs(b._expectation())))
    if rng.random() < .4:
        check_sum(ctx, b + a, pa, pb, f'{mode} sum, reversed', exact=imp)
    if len(pa.segs) > 3 and len(pb.segs) > 3:
        ctx.nontrivial('num', [round(k, 6) for k in pa.knots + pb.knots])


def cumsums(ctx, rng):
    T, x = dists.numeric_type(rng, scaled=0)
    ds = [dists.from_pdf(rng, T) for _ in range(int(rng.integers(1, 4)))]
    before = [state(d) for d in ds]
    ctx.note = {'operands': [d.cdf.pfmt() for d in ds]}
    exact = rng.random() < .5
    n = None if exact else int(rng.integers(3, 9))
    got = list(T.cumsum(ds, error_max=0. if exact else np.inf, n_segments=n))
    ctx.count('cumulative sums')
    ctx.check([state(d) for d in ds] == before, 'cumsum changes its operands', '')
    ctx.check(len(got) == len(ds), 'cumsum has another length', f'{len(got)} instead of {len(ds)}')
    ctx.check(state(got[0]) == before[0], 'cumsum does not start with the first distribution', '')
    for prev, d, c in zip(got, ds[1:], got[1:]):
        pc, pp, pd = ref.PL(c.cdf), ref.PL(prev.cdf), ref.PL(d.cdf)
        if exact:
            check_sum(ctx, c, pp, pd, 'cumulative sum')
            continue
        sane(ctx, pc, 'cumulative sum')
        ctx.check(len(pc.segs) <= max(n, 3), 'cumsum exceeds the number of segments', f'{len(pc.segs)} > {n}')
        sc = 1e-9 * max(1, max(abs(k) for p in (pc, pp, pd) for k in p.knots))
        for f, name in ((min, 'least'), (max, 'greatest')):
            e = f(pp.knots) + f(pd.knots)
            ctx.check(abs(f(pc.knots) - e) <= sc, f'cumsum has the wrong {name} value', f'{f(pc.knots)} instead of {e}')
    if len(ds) > 1:
        ctx.nontrivial('cumsum', before)


def segments(pw):
    return [(i.lower, i.upper, ref.coeffs(f)) for i, f in pw.iter()]


def deviation(orig, lo, hi, m, c):
    """integral of |orig - (mx + c)| over [lo, hi]"""
    cuts = sorted({lo, hi, *[e for a, b, _ in orig for e in (a, b) if lo < e < hi]})
    r = 0.
    for a, b in zip(cuts, cuts[1:]):
        mid = (a + b) / 2
        mo, co = next(f for s, e, f in orig if s <= mid < e)
        dm, dc = mo - m, co - c
        va, vb = dm * a + dc, dm * b + dc
        if va * vb < 0:
            z = a + (b - a) * va / (va - vb)
            r += abs(va) * (z - a) / 2 + abs(vb) * (b - z) / 2
        else:
            r += (abs(va) + abs(vb)) / 2 * (b - a)
    return r


def approximations(ctx, rng):
    T, x = dists.numeric_type(rng, scaled=0)
    if rng.random() < .5:
        k = int(rng.integers(3, 12))
        pts = dists.steps(rng, k, rng.normal(0, 2), float(rng.choice([.1, 1, 20])))
        h = rng.choice([0, .1, .2, .3, 1], size=k - 1)      # equal densities at several places
        h[0], h[-1] = h[0] or .1, h[-1] or .1
        tot = float(np.dot(h, np.diff(pts)))
        from jpt.base.functions import PiecewiseFunction
        from jpt.base.intervals import ContinuousSet, INC, EXC
        from jpt.distributions.quantile.quantiles import QuantileDistribution
        pdf = PiecewiseFunction.zero().overwrite({ContinuousSet(float(a), float(b), INC, EXC): float(v / tot)
                                                  for a, b, v in zip(pts, pts[1:], h)})
        d = T(precision=.01).set(QuantileDistribution.from_pdf(pdf))
        ctx.count('equal densities')
    else:
        d = small(ctx, rng, T, x, atoms=rng.random() < .6)
    k = error = None
    masses = ref.PL(d.cdf).atoms(1e-6)
    r = rng.random()
    if r < .4:
        k = int(rng.integers(3, 9))
    elif r < .8:
        error = float(rng.choice([0, .01, .05, .3]))
    else:
        k, error = int(rng.integers(3, 9)), float(rng.choice([.01, .3]))
    before = state(d)
    linear = rng.random() < .4 and not masses
    ctx.note = {'d': d.cdf.pfmt(), 'k': k, 'error': error, 'linear': bool(linear)}
    if linear:
        ctx.count('cdf approximations')
        src = d.cdf
        res = src.approximate(error_max=error, n_segments=k, replace_by=LinearFunction)
    else:
        ctx.count('density approximations')
        src = d.pdf
        a = d.approximate(error_max=error, n_segments=k)
        res = a.pdf
        pa = ref.PL(a.cdf)
        sane(ctx, pa, 'approximation')
        ctx.check(type(a) is type(d), 'approximation has another type', str(type(a)))
        ctx.count('point masses kept', len(masses))
        for at, w in masses:
            t = 1e-9 * max(1, abs(at))
            e = ref.PL(d.cdf)
            ctx.close(pa.F(at + t) - pa.Fm(at - t), e.F(at + t) - e.Fm(at - t), 'approximation loses a point mass', lambda: f'{w} at {at}', abs_=1e-6,
                      result=a.cdf.pfmt())
    ctx.check(state(d) == before, 'approximation changes the distribution', '')
    orig, got = segments(src), segments(res)
    for at, _ in masses:        # a point mass may cut a segment of the density in two
        for i in range(1, len(got)):
            if abs(got[i][0] - at) <= 1e-9 * max(1, abs(at)) and abs(got[i][2][1] - got[i - 1][2][1]) <= 1e-9 * abs(got[i][2][1]):
                got[i - 1:i + 1] = [(got[i - 1][0], got[i][1], got[i][2])]
                break
    sc = 1e-9 * max(1, max(abs(e) for a, b, _ in orig for e in (a, b) if np.isfinite(e)))
    n0 = len(orig)
    ctx.count('segments replaced', n0 - len(got))
    if k is not None:
        ctx.check(len(got) <= max(k, 3) or error is not None, 'approximation has more segments than asked for', f'{len(got)} > {k}')
        ctx.check(len(got) >= min(k, n0) - (0 if linear else 1) or not linear, 'approximation drops more segments than needed', f'{len(got)} < {k}')
    bp = [e for a, b, _ in orig for e in (a, b) if np.isfinite(e)]
    prev = -np.inf
    for lo, hi, (m, c) in got:
        ctx.check(abs(lo - prev) <= sc or lo == prev, 'segments of the approximation are not contiguous', lambda: str(got))
        prev = hi
        for e in (lo, hi):
            ctx.check(not np.isfinite(e) or min(abs(e - b) for b in bp) <= sc, 'approximation has a new breakpoint', str(e))
        if np.isfinite(lo) and np.isfinite(hi) and hi - lo > 10 * sc:
            dev = deviation(orig, lo, hi, m, c) / (hi - lo)
            scale = max(abs(m * e + c) for e in (lo, hi)) + max(abs(f[0] * e + f[1]) for a, b, f in orig for e in (a, b) if np.isfinite(e))
            ctx.check(error is None or dev <= error + 1e-7 * (1 + scale), 'approximation exceeds the maximal error',
                      lambda: f'{dev} > {error} in [{lo}, {hi})', original=str(orig), result=str(got))
    ctx.check(prev == np.inf and got[0][0] == -np.inf, 'approximation is not defined everywhere', '')
    def ends(segs):
        return [x for a, b, f in segs for x in (a, b) if np.isfinite(x)]
    for name in ('least', 'greatest') if not masses else ():
        g, e = ends(got), (min if name == 'least' else max)(ends(orig))
        ctx.check(abs((min if name == 'least' else max)(g) - e) <= sc, f'approximation moves the {name} point', f'{g}, {e}')
    pl = ref.PL(d.cdf)
    for lo, hi, (m, c) in got:
        if not np.isfinite(lo):
            continue
        t = 1e-8 + 2 * pl.jump_tol()
        if linear:
            ctx.close(m * lo + c, pl.F(lo), 'approximation misses the CDF at a breakpoint', lambda: str(lo), abs_=t)
        else:
            ctx.close(pa.F(lo), pl.F(lo), 'approximation of the density does not preserve mass', lambda: f'CDF at {lo}', abs_=t,
                      original=str(orig), result=str(got))
    if n0 > 4:
        ctx.nontrivial('approx', k, error, [round(b, 6) for b in bp])


def similarities(ctx, rng):
    T, x = dists.numeric_type(rng, scaled=0)
    a = small(ctx, rng, T, x)
    pa = ref.PL(a.cdf)
    b = a if rng.random() < .1 else a.copy() if rng.random() < .1 else small(ctx, rng, T, x)
    if rng.random() < .3:
        ivs, user = dists.restriction(rng, pa, point=0)
        if pa.p(ivs) > 1e-2 and not dists.weak(pa, ivs):
            b = a._crop(user)
    pb = ref.PL(b.cdf)
    if pb.atoms(1e-9) or pa.atoms(1e-9):
        return
    ctx.count('similarities')
    cuts = sorted({*pa.knots, *pb.knots})
    lo = hi = 0.
    for s, e in zip(cuts, cuts[1:]):
        m = (s + e) / 2
        da, db = [next((q / (h - l) for l, h, q in mass(p) if l <= m < h), 0.) for p in (pa, pb)]
        lo += min(da, db) * (e - s)
        hi += max(da, db) * (e - s)
    ctx.note = {'a': a.cdf.pfmt(), 'b': b.cdf.pfmt()}
    for u, v in ((a, b), (b, a)):
        ctx.close(Numeric.jaccard_similarity(u, v), lo / hi, 'Jaccard similarity is not intersection over union', '', abs_=1e-6)
    ctx.nontrivial('jaccard', [round(c, 6) for c in cuts])


def case(ctx):
    rng = ctx.rng
    r = rng.random()
    f = (integers if r < .25 else numerics if r < .55 else cumsums if r < .65 else approximations if r < .88 else similarities)
    f(ctx, rng)
