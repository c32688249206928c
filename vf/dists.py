"""Random univariate distributions and histories of operations on them."""
import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.functions import PiecewiseFunction, ConstantFunction, LinearFunction
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.distributions import Numeric, NumericType, SymbolicType, IntegerType, Bool
from jpt.distributions.quantile.quantiles import QuantileDistribution

from vf import gen, ref


def numeric_type(rng, scaled=.35):
    """a numeric domain and samples of it"""
    n = int(rng.choice([1, 2, 3, 6, 15, 40, 100]))
    x = gen.numeric_column(rng, rng.integers(0, 3, n))
    if rng.random() < scaled and n > 1 and np.std(x) > 1e-9 * abs(np.mean(x)):
        T = NumericType(gen.uid('D'), x)
        s = float(np.std(x))
        ref.SCALING[T] = (float(np.mean(x)), s if s else 1.)
    else:
        T = Numeric
    return T, x


def scaling(T):
    return ref.SCALING.get(T, (0., 1.))


def fitted(rng, T, x):
    """fit to values (value space) of a subset of the samples"""
    m, s = scaling(T)
    v = (np.asarray(x) - m) / s
    k = int(rng.integers(1, len(v) + 1))
    v = v[rng.choice(len(v), size=k, replace=False)]
    d = T(precision=float(rng.choice([.001, .01, .05, .2])))
    return d._fit(np.ascontiguousarray(v.reshape(-1, 1)), None, 0)


def steps(rng, k, loc=0., scale=1.):
    """k increasing points, gaps of very different size"""
    return loc + scale * np.cumsum(rng.choice([.05, .3, 1., 2.5], size=k) * rng.uniform(.5, 1.5, k))


def from_pdf(rng, T):
    """piecewise constant density, possibly with gaps"""
    k = int(rng.integers(2, 7))
    pts = steps(rng, k, rng.normal(0, 2), float(rng.choice([.1, 1, 20])))
    w = rng.dirichlet(np.ones(k - 1))
    if k > 3 and rng.random() < .4:
        w[int(rng.integers(1, k - 2))] = 0
        w /= w.sum()
    pdf = PiecewiseFunction.zero().overwrite({
        ContinuousSet(float(a), float(b), INC, EXC): float(p / (b - a)) for a, b, p in zip(pts, pts[1:], w)
    })
    return T(precision=.01).set(QuantileDistribution.from_pdf(pdf))


def from_cdf(rng, T):
    """piecewise linear CDF with jumps and plateaus"""
    k = int(rng.integers(2, 6))
    pts = steps(rng, k, rng.normal(0, 2), float(rng.choice([.1, 1, 20])))
    inc = rng.dirichlet(np.ones(k - 1))
    if k > 3 and rng.random() < .4:
        inc[int(rng.integers(1, k - 2))] = 0
    jump = rng.dirichlet(np.ones(k)) * (rng.random(k) < .5)
    tot = inc.sum() + jump.sum()
    inc, jump = inc / tot, jump / tot
    cdf = PiecewiseFunction()
    cdf.intervals.append(ContinuousSet(-np.inf, float(pts[0]), EXC, EXC))
    cdf.functions.append(ConstantFunction(0.))
    y = 0.
    for i in range(k - 1):
        y += jump[i]
        cdf.intervals.append(ContinuousSet(float(pts[i]), float(pts[i + 1]), INC, EXC))
        if inc[i]:
            f = LinearFunction.from_points((float(pts[i]), float(y)), (float(pts[i + 1]), float(y + inc[i])))
            cdf.functions.append(f)
        else:
            cdf.functions.append(ConstantFunction(float(y)))
        y += inc[i]
    cdf.intervals.append(ContinuousSet(float(pts[-1]), np.inf, INC, EXC))
    cdf.functions.append(ConstantFunction(1.))
    return T(precision=.01).set(QuantileDistribution.from_cdf(cdf))


def dirac(rng, T, x):
    m, s = scaling(T)
    return T().create_dirac_impulse(float((rng.choice(x) - m) / s))


def numeric(rng, T=None, x=None, depth=2, trace=None, atoms=True):
    """A numeric distribution made by a random history of operations."""
    trace = trace if trace is not None else []
    if T is None:
        T, x = numeric_type(rng)
    r = rng.random()
    if depth == 0 or r < .5:
        how = rng.choice(['fit', 'pdf', 'cdf', 'dirac'], p=[.55, .2, .15, .1] if atoms else [.6, .4, 0, 0])
        trace.append(str(how))
        if how == 'fit':
            d = fitted(rng, T, x)
            if not atoms and ref.PL(d.cdf).atoms():
                return from_pdf(rng, T)
            return d
        return from_pdf(rng, T) if how == 'pdf' else from_cdf(rng, T) if how == 'cdf' else dirac(rng, T, x)
    if r < .75:
        d = numeric(rng, T, x, depth - 1, trace, atoms)
        pl = ref.PL(d.cdf)
        for _ in range(5):
            ivs, user = restriction(rng, pl)
            if pl.p(ivs) > 1e-3 and not weak(pl, ivs):
                trace.append(f'crop {user}')
                return d._crop(user)
        return d
    k = int(rng.integers(2, 4))
    ds = [numeric(rng, T, x, depth - 1, trace, atoms) for _ in range(k)]
    w = rng.dirichlet(np.ones(k) * 2)
    trace.append(f'merge {k}')
    return T.merge(ds, [float(a) for a in w])


def weak(pl, ivs):
    """an interval carries hardly any mass of its own, or the mass hangs on rounding errors"""
    for iv in ivs:
        p = pl.p([iv])
        if 0 < p < 1e-6:
            return True
        # the mass differs much when the ends move by rounding errors
        lo, hi, lc, hc = iv
        for e in (lo, hi):
            if not np.isfinite(e):
                continue
            d = 1e-9 * max(1., abs(e))
            for k in pl.knots:
                if k != e and abs(k - e) <= d:
                    return True
    return False


def points(rng, pl, k=6):
    kn = pl.knots
    lo, hi = kn[0], kn[-1]
    span = (hi - lo) or 1.
    return ([float(a) for a in kn] + [lo - .1 * span, hi + .1 * span, lo - span, hi + span] +
            [float(a) for a in rng.uniform(lo, hi, k)])


def restriction(rng, pl, point=.1, multi=.3):
    """-> (reference set, NumberSet) in value space"""
    pts = points(rng, pl)
    k = int(rng.integers(2, 4)) if rng.random() < multi else 1
    parts = []
    for _ in range(k):
        a, b = sorted(float(v) for v in rng.choice(pts, 2))
        lc, hc = bool(rng.random() < .6), bool(rng.random() < .6)
        if rng.random() < point:
            b = a
        if b - a <= 1e-9 * (1e-3 + max(abs(a), abs(b))):
            b, lc, hc = a, True, True
        if rng.random() < .1:
            a, lc = -np.inf, False
        if rng.random() < .1:
            b, hc = np.inf, False
        parts.append((a, b, lc, hc))
    if k == 1:
        a, b, lc, hc = parts[0]
        user = ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC)
    else:
        user = RealSet([ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC) for a, b, lc, hc in parts])
    return ref.normalise(parts), user


def discrete(rng, kind=None, zeros=.3):
    """-> (distribution, {label: probability}, labels in the order of internal values)"""
    kind = kind or rng.choice(['symbolic', 'integer', 'bool'], p=[.5, .35, .15])
    T = domain(rng, kind)
    return discrete_of(rng, T, zeros)


def domain(rng, kind):
    if kind == 'bool':
        return Bool
    if kind == 'symbolic':
        k = int(rng.integers(1, 7))
        return SymbolicType(gen.uid('S'), labels=gen.LABELSETS[rng.integers(len(gen.LABELSETS))](k))
    lo = int(rng.choice([-5, -1, 0, 1, 3]))
    return IntegerType(gen.uid('I'), lo, lo + int(rng.integers(0, 7)))


def labels(T):
    """labels in the order of the internal values"""
    if hasattr(T, 'lmin'):
        return list(range(T.lmin, T.lmax + 1))
    return [T.labels[i] for i in range(len(T.values))]


def discrete_of(rng, T, zeros=.3):
    d = T()
    labs = labels(T)
    k = len(labs)
    p = rng.dirichlet(np.full(k, float(rng.choice([.3, 1., 5.]))))
    if rng.random() < zeros and k > 1:
        p[rng.choice(k, size=int(rng.integers(1, k)), replace=False)] = 0
    if p.sum() <= 0:
        p[0] = 1
    if rng.random() < .2:
        p = np.round(p * 4 + .3)      # ties
        if p.sum() == 0:
            p[0] = 1
    p = p / p.sum()
    d.set([float(a) for a in p])
    return d, {lab: float(a) for lab, a in zip(labs, p)}, labs
