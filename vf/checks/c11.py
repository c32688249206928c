"""Leaf distributions are the empirical distributions of their samples."""
import numpy as np

from jpt.distributions import Numeric, SymbolicType, IntegerType
from jpt.distributions.quantile.quantiles import QuantileDistribution

from vf import gen, learnref, ref

PROPERTY = 'C11'
RULE = ('Random data sets are learned twice, with and without closing gaps, keeping the sample indices: label frequencies '
        'of every leaf are counted; numeric CDFs must be monotone, vanish below the least sample, reach one at the '
        'greatest and pass through the empirical CDF at each breakpoint, so that they stay within the mass of a segment; '
        'gap closing must be the documented mixture with weight 1/2N. Also direct fits with row subsets, duplicate rows, '
        'imaginary end points and large samples, whose residuals are compared with the precision. Non-trivial: a leaf '
        'or fit with at least three distinct values.')
CASES = {'quick': 7000, 'thorough': 40000}
REQUIRED = ['numeric leaf distributions', 'discrete leaf distributions', 'point masses', 'breakpoints', 'closed gaps',
            'widened point masses', 'direct numeric fits', 'imaginary end points', 'direct symbolic fits',
            'direct integer fits', 'prior distributions', 'regular samples']
ASSUMPTIONS = ['the precision bounds the deviation for samples without gaps only (the fit is a greedy regression)']


def empirical(x):
    """distinct values and their quantiles (#{<=} - 1) / (n - 1)"""
    u, c = np.unique(x, return_counts=True)
    n = len(x)
    return u, (np.cumsum(c) - 1) / (n - 1) if n > 1 else np.ones(1)


def sane(ctx, pl, what, tol=1e-10):
    prev, y = -np.inf, 0.
    ctx.check(pl.segs[0][0] == -np.inf and pl.segs[-1][1] == np.inf, 'CDF is not defined everywhere', what)
    for lo, hi, f in pl.segs:
        ctx.check(lo == prev and hi > lo, 'segments of the CDF are not contiguous', lambda: f'{what}: {pl.segs}')
        prev = hi
        a = ref.seg_eval(f, lo) if lo > -np.inf else ref.seg_eval(f, hi)
        b = ref.seg_eval(f, hi) if hi < np.inf else ref.seg_eval(f, lo)
        eps = max(tol, pl.jump_tol())
        ctx.check(a >= y - eps and b >= a - eps, 'CDF is not monotone', lambda: f'{what}: {y}, {a}, {b} at {lo}')
        y = b
    ctx.check(pl.F(-1e308) == 0, 'CDF does not start at 0', what)
    ctx.close(pl.F(1e308), 1, 'CDF does not end at 1', what, abs_=1e-9)


def check_fit(ctx, pl, x, what, slack=0.):
    """pl against the samples x"""
    sane(ctx, pl, what)
    u, y = empirical(x)
    sc = max(1., float(np.abs(u).max()))
    tx = 1e-12 * sc
    ctx.check(pl.Fm(u[0] - tx) == 0, 'CDF has mass below the least sample', lambda: f'{what}: {pl.Fm(u[0] - tx)} below {u[0]}')
    ctx.close(pl.F(u[-1] + 4 * tx), 1, 'CDF has mass above the greatest sample', what, abs_=1e-9)
    if len(u) == 1:
        ctx.count('point masses')
        at = pl.atoms()
        ctx.check(len(at) == 1 and abs(at[0][0] - u[0]) <= tx and abs(at[0][1] - 1) < 1e-12,
                  'constant sample is no point mass', lambda: f'{what}: {at} instead of {u[0]}')
        return
    tol = max(pl.jump_tol(), 1e-9)
    yv = dict(zip(u.tolist(), y.tolist()))
    bp = [k for k in pl.knots]
    idx = []
    for k, b in enumerate(bp):
        j = int(np.argmin(np.abs(u - b)))
        t = tx if k < len(bp) - 1 else 4 * tx + 4 * np.spacing(sc)
        ctx.check(abs(u[j] - b) <= t, 'breakpoint is no sample', lambda: f'{what}: {b}, nearest sample {u[j]}')
        ctx.count('breakpoints')
        if k < len(bp) - 1:
            ctx.check(abs(pl.F(b) - y[j]) <= tol, 'CDF misses the empirical quantile at a breakpoint',
                      lambda: f'{what}: {pl.F(b)} instead of {y[j]} at {b}')
        idx.append(j)
    ctx.check(idx[0] == 0 and idx[-1] == len(u) - 1, 'CDF does not span the range of the samples', lambda: f'{what}: {bp}')
    for a, b in zip(idx, idx[1:]):
        for j in range(a + 1, b):
            v = pl.F(float(u[j]))
            ctx.check(y[a] - tol <= v <= y[b] + tol, 'CDF leaves the range of its segment', lambda: f'{what}: {v} at {u[j]}')


def regular(ctx, rng):
    """Samples of regular densities: the deviation is of the order of the precision."""
    n = int(rng.choice([60, 100, 200, 400]))
    eps = float(rng.choice([.01, .02, .05, .1]))
    kind = rng.choice(['uniform', 'linear', 'gauss', 'gauss'])
    q = (np.arange(n) + .5) / n
    from math import erf
    if kind == 'uniform':
        x = q + rng.uniform(-.3, .3, n) / n
    elif kind == 'linear':
        x = np.sqrt(q) + rng.uniform(-.2, .2, n) / n
    else:
        g = np.linspace(-4, 4, 4001)
        x = np.interp(q, [.5 * (1 + erf(a / 2 ** .5)) for a in g], g)
    x = x * float(rng.choice([1e-3, 1, 50])) + float(rng.choice([0, -7, 3]))
    x = rng.permutation(x)
    d = QuantileDistribution(epsilon=eps)
    d.fit(np.ascontiguousarray(x.reshape(-1, 1)), None, 0)
    pl = ref.PL(d.cdf)
    check_fit(ctx, pl, x, f'{kind} sample')
    u, y = empirical(x)
    r = np.array([pl.F(float(a)) for a in u]) - y
    ctx.count('regular samples')
    rms = float(np.sqrt(np.mean(r ** 2)))
    ctx.check(rms <= 1.5 * eps + 1. / n, 'deviation of a regular sample exceeds the precision',
              lambda: f'{kind}, n={n}: {rms} with precision {eps}')
    ctx.check(len(pl.segs) < 3 + max(8, n // 2), 'regular sample is not summarised', lambda: f'{kind}, n={n}: {len(pl.segs)} segments, precision {eps}')
    ctx.nontrivial(kind, n, eps, len(pl.segs))


def direct(ctx, rng):
    n = int(rng.choice([1, 2, 3, 5, 8, 20, 60]))
    z = rng.integers(0, 3, n)
    cols = int(rng.integers(1, 4))
    X = np.column_stack([gen.numeric_column(rng, z) for _ in range(cols)])
    X = np.ascontiguousarray(X)
    rows = None if rng.random() < .3 else rng.integers(0, n, size=int(rng.integers(1, n + 3))).astype(np.int64)
    col = int(rng.integers(cols))
    x = X[:, col] if rows is None else X[rows, col]
    before = X.copy()
    d = QuantileDistribution(epsilon=float(rng.choice([.001, .01, .1])))
    kw, full = {}, list(x)
    if rng.random() < .4 and len(x):
        gap = 1 + .01 * abs(float(x.min()))
        if rng.random() < .7:
            kw['leftmost'] = float(x.min() - gap)
            full.append(kw['leftmost'])
        if rng.random() < .7:
            kw['rightmost'] = float(x.max() + gap)
            full.append(kw['rightmost'])
        ctx.count('imaginary end points', len(kw))
    if rng.random() < .5 or kw:
        d.fit(X, rows, col, **kw)
    else:
        d = Numeric(precision=.01)
        d.fit(X, rows, col)
        d = d._quantile
    ctx.count('direct numeric fits')
    ctx.check(np.array_equal(before, X), 'fitting changes the data', '')
    check_fit(ctx, ref.PL(d.cdf), np.array(full), f'fit of {len(full)} values')
    # discrete distributions, with repeated rows
    k = int(rng.integers(1, 6))
    labels = gen.LABELSETS[rng.integers(len(gen.LABELSETS))](k)
    S = SymbolicType(gen.uid('F'), labels=labels)
    D = np.ascontiguousarray(np.column_stack([rng.integers(0, k, n), rng.integers(0, k, n)]).astype(np.float64))
    rows = None if rng.random() < .3 else rng.integers(0, n, size=int(rng.integers(1, n + 3))).astype(np.int64)
    c = int(rng.integers(2))
    vals = (D[:, c] if rows is None else D[rows, c]).astype(int)
    want = np.bincount(vals, minlength=k) / len(vals)
    s = S()._fit(D, rows, c)
    ctx.check(np.allclose(s._params, want, atol=1e-12), 'symbolic frequencies differ', lambda: f'{s._params} instead of {want}')
    ctx.count('direct symbolic fits')
    lo = int(rng.choice([-4, 0, 1, 7]))
    I = IntegerType(gen.uid('G'), lo, lo + k - 1)
    s = I()._fit(D, rows, c)
    ctx.check(np.allclose(s._params, want, atol=1e-12), 'integer frequencies differ', lambda: f'{s._params} instead of {want}')
    data = [int(lo + i) for i in rng.integers(0, k, n)]
    D = np.column_stack([np.zeros(n), data]) if rng.random() < .5 else np.column_stack([np.zeros(n, dtype=int), data])
    rows = None if rng.random() < .5 else rng.integers(0, n, size=int(rng.integers(1, n + 3)))
    s = I().fit(D, rows, 1)
    data = data if rows is None else [data[i] for i in rows]
    for lab in range(lo, lo + k):
        ctx.close(s.p(lab), data.count(lab) / len(data), 'integer frequencies of labels differ', str(lab), abs_=1e-12)
    ctx.count('direct integer fits')
    if len(np.unique(full)) > 2:
        ctx.nontrivial(len(full), k)


def case(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < .1:
        return regular(ctx, rng)
    if r < .4:
        return direct(ctx, rng)
    w = gen.make_world(rng)
    h = gen.hyper(rng, w)
    t = gen.make_tree(rng, w, learn_kw={'close_convex_gaps': False, 'keep_samples': True}, **h)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t)
    X = w.values()
    plain = {}

    def discrete(d, v, x, what):
        cnt = np.bincount(x.astype(int), minlength=len(ref.labels_of(v))) / len(x)
        ctx.count('discrete leaf distributions')
        ctx.check(np.allclose(np.asarray(d._params, dtype=float), cnt, atol=1e-12), 'leaf frequencies are not those of its samples',
                  lambda: f'{what}: {list(d._params)} instead of {list(cnt)}')

    for j, v in enumerate(w.variables):
        ctx.count('prior distributions')
        if v.numeric:
            check_fit(ctx, ref.PL(t.priors[v].cdf), X[:, j], f'prior of {v.name}')
        else:
            discrete(t.priors[v], v, X[:, j], f'prior of {v.name}')
    for idx, leaf in t.leaves.items():
        r = np.array([int(i) for i in leaf.s_indices])
        for j, v in enumerate(w.variables):
            d = leaf.distributions[v]
            x = X[r, j]
            if not v.numeric:
                discrete(d, v, x, f'leaf {idx}, {v.name}')
                continue
            ctx.count('numeric leaf distributions')
            pl = ref.PL(d.cdf)
            plain[idx, v.name] = pl
            check_fit(ctx, pl, x, f'leaf {idx}, {v.name}')
            if len(np.unique(x)) > 2:
                ctx.nontrivial(idx, v.name, len(x), len(pl.segs))
            eps = v.settings['precision']
            ctx.check(d.precision == eps if hasattr(d, 'precision') else True, 'precision of the variable is not used', v.name)
    # -- the same with closed gaps
    g = gen.make_tree(rng, w, learn_kw={'close_convex_gaps': True, 'keep_samples': True}, **h)
    ctx.check(set(g.leaves) == set(t.leaves), 'closing gaps changes the leaves', '')
    N = w.n
    for idx, leaf in g.leaves.items():
        path = ref.read_path(leaf)
        for j, v in enumerate(w.variables):
            d = leaf.distributions[v]
            if not v.numeric:
                discrete(d, v, X[[int(i) for i in leaf.s_indices], j], f'closed leaf {idx}, {v.name}')
                continue
            a, b = plain[idx, v.name], ref.PL(d.cdf)
            what = f'closed leaf {idx}, {v.name}'
            sane(ctx, b, what)
            lo, hi = a.knots[0], a.knots[-1]
            scale = max(1., abs(lo), abs(hi))
            pts = [lo, hi] + [float(p) for p in rng.uniform(lo - .2 * (hi - lo) - .1, hi + .2 * (hi - lo) + .1, 6)]
            if v.name not in path:
                for p in pts:
                    ctx.close(b.F(p), a.F(p), 'closing gaps changes an unrelated distribution', what, abs_=1e-9)
                continue
            (pl_, pr_) = path[v.name][0][0], path[v.name][-1][1]
            left = pl_ if -np.inf < pl_ < lo else None
            right = pr_ if hi < pr_ < np.inf else None
            if left is not None:
                pts += [left, (left + lo) / 2]
            if right is not None:
                pts += [right, (right + hi) / 2]
            if (left is not None and lo - left < 1e-9 * scale) or (right is not None and right - hi < 1e-9 * scale):
                continue        # bridges at the level of rounding errors
            if left is None and right is None:
                continue
            if len(a.knots) == 1:
                ctx.count('widened point masses')
                l0, r0 = (lo if left is None else left), (hi if right is None else right)
                for p in pts:
                    ctx.close(b.F(p), min(1, max(0, (p - l0) / (r0 - l0))), 'widened point mass is not uniform', what, abs_=1e-6)
                continue
            ctx.count('closed gaps')
            bridges = [x for x in ((left, lo) if left is not None else None, (hi, right) if right is not None else None) if x]
            wt = 1 / (2 * N)
            for p in pts:
                f = a.F(p) * (1 - wt) + wt * np.mean([min(1, max(0, (p - s) / (e - s))) for s, e in bridges])
                ctx.close(b.F(p), f, 'closed gap is not the mixture with the bridges', lambda: f'{what} at {p}', abs_=1e-6)
            for s, e in bridges:
                if wt * .2 / len(bridges) > 1e-7:
                    ctx.check(b.F(s + .75 * (e - s)) > b.F(s + .25 * (e - s)), 'gap is not closed', what)
