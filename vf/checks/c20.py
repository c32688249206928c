"""Operations on (piecewise) functions are pointwise."""
import numpy as np

from jpt.base.functions import (ConstantFunction, LinearFunction, PiecewiseFunction, QuadraticFunction, Undefined, Hinge, Impulse, Jump)
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC, R

from vf import ref

PROPERTY = 'C20'
RULE = ('Random constant, linear, quadratic and undefined functions and piecewise functions of them (covering the real line, an interval '
        'or with gaps; equal neighbours; bounds from a small pool so that breakpoints coincide often). Every operation is compared with '
        'arithmetic on coefficient vectors at all breakpoints of operands and result, next to them, between them and beyond; operands must '
        'stay as they were and share nothing with the result; results are fed back. Non-trivial: operands with at least two pieces.')
CASES = {'quick': 12000, 'thorough': 500000}
REQUIRED = ['sums', 'differences', 'products', 'scalar operations', 'reflected operations', 'sums of piecewise functions', 'products of piecewise functions', 'crops',
            'overwrites', 'splits', 'stretches', 'shifts', 'mirrors', 'roundings', 'derivatives', 'integrals', 'rectifications', 'simplifications', 'minima and maxima',
            'maximisations', 'boundaries', 'evaluations', 'outside of the domain', 'equalities', 'intersections', 'roots', 'fits', 'parsed',
            'knot functions', 'points', 'chained', 'level sets', 'gaps', 'unbounded', 'many pieces', 'convolutions', 'convolutions with an impulse']
ASSUMPTIONS = ['pieces are closed to the left and open to the right, as everywhere in the library', 'breakpoints further apart than 1e-6, values below 1e6']

POOL = [-4., -3., -1.5, -1., 0., .25, .5, 1., 2., 2.5, 4., 7.]
VAL = [-3., -2., -1., -.5, 0., .25, .5, 1., 2., 4.]


def val(rng):
    return float(rng.choice(VAL)) if rng.random() < .7 else float(round(rng.normal(0, 2), 4))


def elementary(rng, degree=1, undefined=0.):
    """-> (function, coefficients from the constant upwards) or (Undefined, None)"""
    if rng.random() < undefined:
        return Undefined(), None
    d = int(rng.integers(0, degree + 1))
    c = [val(rng) for _ in range(d + 1)]
    if d and rng.random() < .1:
        c[-1] = 0.
    if d == 0:
        return ConstantFunction(c[0]), (c[0],)
    if d == 1:
        return LinearFunction(c[1], c[0]), tuple(c)
    return QuadraticFunction(c[2], c[1], c[0]), tuple(c)


def ev(c, x):
    if c is None:
        return np.nan
    return sum(a * x ** k if a else 0. for k, a in enumerate(c))


def padd(a, b):
    if a is None or b is None:
        return None
    n = max(len(a), len(b))
    return tuple((a[k] if k < len(a) else 0.) + (b[k] if k < len(b) else 0.) for k in range(n))


def pmul(a, b):
    if a is None or b is None:
        return None
    r = [0.] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return tuple(r)


def trim(c):
    c = list(c)
    while len(c) > 1 and not c[-1]:
        c.pop()
    return tuple(c)


class Model:
    """[(lo, hi, coefficients)], lo <= x < hi"""

    def __init__(self, segs):
        self.segs = segs

    def __call__(self, x):
        for lo, hi, c in self.segs:
            if lo <= x < hi:
                return ev(c, x)
        return np.nan

    def at(self, x):
        for lo, hi, c in self.segs:
            if lo <= x < hi:
                return c
        return None

    def ends(self):
        return [e for lo, hi, _ in self.segs for e in (lo, hi) if np.isfinite(e)]

    def map(self, f):
        return Model([(lo, hi, f(c)) for lo, hi, c in self.segs])

    def combine(self, other, f):
        cuts = sorted({-np.inf, np.inf, *[e for m in (self, other) for lo, hi, _ in m.segs for e in (lo, hi)]})
        out = []
        for lo, hi in zip(cuts, cuts[1:]):
            m = (lo + hi) / 2 if np.isfinite(lo) and np.isfinite(hi) else hi - 1 if np.isfinite(hi) else lo + 1 if np.isfinite(lo) else 0.
            inside = [any(a <= m < b for a, b, _ in s.segs) for s in (self, other)]
            if any(inside):
                out.append((lo, hi, f(self.at(m), other.at(m)) if all(inside) else None))
        return Model(out)


def intervals(rng, full=.5, gaps=.2):
    n = int(rng.choice([1, 2, 3, 4, 6]))
    pts = sorted(rng.choice(len(POOL), size=n + 1, replace=False).tolist())
    pts = [POOL[i] for i in pts]
    if rng.random() < .3:
        pts = sorted({round(float(p), 6) for p in rng.uniform(-5, 5, n + 1)})
    if rng.random() < .006:
        pts = sorted(float(p) for p in rng.choice(np.arange(-200, 200) * .0625, int(rng.integers(40, 160)), replace=False))
    if rng.random() < full:
        pts[0], pts[-1] = -np.inf, np.inf
    else:
        if rng.random() < .2:
            pts[0] = -np.inf
        if rng.random() < .2:
            pts[-1] = np.inf
    iv = list(zip(pts, pts[1:]))
    if len(iv) > 2 and rng.random() < gaps:
        del iv[int(rng.integers(1, len(iv) - 1))]
    return iv


def interval(lo, hi):
    return ContinuousSet(lo, hi, INC if np.isfinite(lo) else EXC, EXC)


def piecewise(rng, degree=1, undefined=.1, full=.5, gaps=.2, how=True):
    iv = intervals(rng, full, gaps)
    fs = []
    for i in iv:
        if fs and rng.random() < .2:
            f, c = fs[-1][0].copy(), fs[-1][1]
        else:
            f, c = elementary(rng, degree, undefined)
        fs.append((f, c))
    segs = [(lo, hi, c) for (lo, hi), (_, c) in zip(iv, fs)]
    r = rng.random()
    if not how or r < .5:
        pw = PiecewiseFunction()
        for (lo, hi), (f, _) in zip(iv, fs):
            pw.append(interval(lo, hi), f)
    else:
        items = [(interval(lo, hi), f) for (lo, hi), (f, _) in zip(iv, fs)]
        ix = rng.permutation(len(items))
        d = {}
        for k in ix:
            i, f = items[k]
            c = fs[k][1]
            d[i if rng.random() < .7 else str(i) if round(i.lower, 3) == i.lower and round(i.upper, 3) == i.upper and np.isfinite([i.lower, i.upper]).all() else i] = (
                None if c is None and rng.random() < .5 else c[0] if c is not None and len(c) == 1 and rng.random() < .5 else f)
        pw = PiecewiseFunction.from_dict(d)
    return pw, Model(segs)


def state(f):
    if isinstance(f, PiecewiseFunction):
        return [(i.lower, i.upper, i.left, i.right, state(g)) for i, g in f.iter()]
    n = type(f).__name__
    return (n,) + tuple(getattr(f, a) for a in {'ConstantFunction': 'value', 'LinearFunction': 'mc', 'QuadraticFunction': 'abc'}.get(n, ())
                        ) if n != 'ConstantFunction' else (n, f.value)


def probes(*models):
    e = sorted({x for m in models for x in (m.ends() if isinstance(m, Model) else [b for i in m.intervals for b in (i.lower, i.upper) if np.isfinite(b)])} or {0.})
    mid = [(a + b) / 2 for a, b in zip(e, e[1:])]
    off = [x + d for x in e for d in (-1e-7, 1e-7)]
    return [e[0] - 3, e[0] - .5] + e + mid + off + [e[-1] + .5, e[-1] + 3]


def same(ctx, got, want, mech, msg, extra=(), rel=1e-9):
    """pointwise equality of a piecewise function and a model; continuous up to shifted breakpoints"""
    for x in probes(got, want, *extra):
        y, z = got(x), want(x)
        ctx.count('evaluations')
        if not (np.isnan(y) and np.isnan(z)):
            sc = 1 + abs(z) if z == z else 1.
            # breakpoints may move by rounding errors
            ok = abs(y - z) <= rel * sc * (1 + abs(x)) ** 2
            if not ok:
                t = 1e-9 * max(1., abs(x))
                ok = any(min(abs(x - e) for e in m) <= t for m in [[e for e in want.ends()]] if m) and any(
                    (np.isnan(y) and np.isnan(w)) or abs(y - w) <= 1e-7 * (1 + abs(w)) for w in (want(x - t), want(x + t))) and x not in want.ends()
            ctx.check(ok, mech, lambda: f'{msg() if callable(msg) else msg}: {y} instead of {z} at {x}', result=repr(got))
    ctx.count('many pieces', int(len(got.intervals) > 40))
    prev = None
    for i in got.intervals:
        ctx.check(not i.isempty(), mech + ' (empty piece)', msg if not callable(msg) else msg(), result=repr(got))
        ctx.check(prev is None or i.lower >= prev, mech + ' (overlapping pieces)', msg if not callable(msg) else msg(), result=repr(got))
        prev = i.upper


def independent(ctx, got, before, ops, what):
    """operands are as they were, and stay so if the result is modified"""
    for o, b in zip(ops, before):
        ctx.check(state(o) == b, f'{what} changes its operand', lambda: f'{o}')
    if isinstance(got, PiecewiseFunction):
        for i in got.intervals:
            i.lower, i.upper = i.lower + 1, i.upper + 1
        for f in got.functions:
            if isinstance(f, ConstantFunction):
                f.value += 1
            elif isinstance(f, (LinearFunction, QuadraticFunction)):
                f.c += 1
        for o, b in zip(ops, before):
            ctx.check(state(o) == b, f'result of {what} shares parts with its operand', lambda: f'{o}')
        ctx.check(R.lower == -np.inf and R.upper == np.inf, f'{what} modifies a shared constant', '')


def fsame(ctx, got, c, mech, msg):
    """elementary function against coefficients"""
    for x in (-2.5, -1., 0., .5, 1., 3.):
        y, z = got(x), ev(c, x)
        ctx.count('evaluations')
        ctx.check(np.isnan(y) and np.isnan(z) or abs(y - z) <= 1e-9 * (1 + abs(z)), mech, lambda: f'{msg() if callable(msg) else msg} = {got!r}: {y} instead of {z} at {x}')


# -- elementary functions ----------------------------------------------------------------------------------------------
def arithmetic(ctx, rng):
    f, a = elementary(rng, 2, .05)
    g, b = elementary(rng, 2, .05)
    s = val(rng)
    s = int(s) if rng.random() < .3 else np.float64(s) if rng.random() < .3 else s
    before = state(f), state(g)
    msg = lambda: f'{f!r}, {g!r}, {s}'
    neg = None if b is None else tuple(-x for x in b)
    nega = None if a is None else tuple(-x for x in a)
    prod = pmul(a, b)
    if prod is None or len(trim(prod)) <= 3:
        if len(a or ()) + len(b or ()) <= 4:     # otherwise products are no quadratic functions
            fsame(ctx, f * g, prod, 'wrong product', msg)
            fsame(ctx, f.mul(g), prod, 'wrong product', msg)
            ctx.count('products')
    else:
        try:
            r = f * g
        except TypeError:
            pass
        else:
            ctx.check(False, 'product of third degree is represented', lambda: f'{msg()}: {r}')
    fsame(ctx, f + g, padd(a, b), 'wrong sum', msg)
    fsame(ctx, f.add(g), padd(a, b), 'wrong sum', msg)
    fsame(ctx, f - g, padd(a, neg), 'wrong difference', msg)
    ctx.count('sums')
    ctx.count('differences')
    fsame(ctx, f + s, padd(a, (s,)), 'wrong sum with a number', msg)
    fsame(ctx, f - s, padd(a, (-s,)), 'wrong difference to a number', msg)
    fsame(ctx, f * s, pmul(a, (s,)), 'wrong product with a number', msg)
    ctx.count('scalar operations')
    if not isinstance(s, np.generic):
        fsame(ctx, s + f, padd((s,), a), 'wrong reflected sum', msg)
        fsame(ctx, s * f, pmul((s,), a), 'wrong reflected product', msg)
        fsame(ctx, s - f, padd((s,), nega), 'wrong reflected difference', msg)
        ctx.count('reflected operations')
    ctx.check((state(f), state(g)) == before, 'arithmetic changes its operand', msg)
    h = (f + g).simplify()
    want = padd(a, b)
    if want is not None:
        kind = ['ConstantFunction', 'LinearFunction', 'QuadraticFunction'][len(trim(want)) - 1]
        ctx.check(type(h).__name__ == kind, 'sum is not simplified', lambda: f'{msg()}: {h!r}')


def single(ctx, rng):
    f, a = elementary(rng, 2)
    msg = lambda: f'{f!r}'
    before = state(f)
    fsame(ctx, f, a, 'wrong value', msg)
    fsame(ctx, f.copy(), a, 'wrong copy', msg)
    fsame(ctx, f.simplify(), a, 'wrong simplification', msg)
    ctx.check(f.copy() == f and f == f.simplify() or len(a) == 3 and not a[2], 'copy is not equal', msg)
    d = tuple(k * x for k, x in enumerate(a))[1:] or (0.,)
    fsame(ctx, f.differentiate(), d, 'wrong derivative', msg)
    ctx.count('derivatives')
    xs = np.array([val(rng) for _ in range(4)])
    ys = np.asarray(f.multi_eval(xs))
    ctx.check(all(abs(y - ev(a, x)) < 1e-9 * (1 + abs(y)) for x, y in zip(xs, ys)), 'wrong values of several points', msg)
    ctx.check(np.array_equal(np.asarray(f(xs)), ys), 'wrong values of several points', msg)
    if len(a) < 3:
        s = val(rng)
        # f(x + s)
        sh = a if len(a) == 1 else (a[0] + a[1] * s, a[1])
        fsame(ctx, f.xshift(s), sh, 'wrong shift', lambda: f'{f!r} by {s}')
        fsame(ctx, f.xmirror(), tuple(x * (-1) ** k for k, x in enumerate(a)), 'wrong mirror image', msg)
        ctx.count('shifts')
        ctx.count('mirrors')
        lo, hi = sorted((val(rng), val(rng)))
        F = lambda x: sum(c * x ** (k + 1) / (k + 1) for k, c in enumerate(a))
        ctx.close(f.integrate(lo, hi), F(hi) - F(lo), 'wrong integral', lambda: f'{f!r} in [{lo}, {hi}]', abs_=1e-9, rel=1e-9)
        t = trim(a)
        for lo_, hi_ in ((-np.inf, hi), (lo, np.inf)):
            if t == (0.,):
                e = 0.
            elif len(t) == 1:
                e = np.inf if t[0] > 0 else -np.inf
            else:
                e = np.inf if (t[1] > 0) == (hi_ == np.inf) else -np.inf
            ctx.check(f.integrate(lo_, hi_) == e, 'wrong improper integral', lambda: f'{f!r} in [{lo_}, {hi_}]: {f.integrate(lo_, hi_)} instead of {e}')
        if len(t) == 1:
            e = 0. if not t[0] else np.inf if t[0] > 0 else -np.inf
            ctx.check(f.integrate(-np.inf, np.inf) == e, 'wrong improper integral', lambda: f'{f!r} in R: {f.integrate(-np.inf, np.inf)}')
        ctx.count('integrals')
        # intersections
        g, b = elementary(rng, 1)
        i = f.intersection(g)
        delta = trim(padd(a, tuple(-x for x in b)))
        if delta == (0.,):
            ctx.check(i.isninf() and i.ispinf(), 'equal functions do not intersect everywhere', lambda: f'{f!r}, {g!r}: {i}')
        elif len(delta) == 1:
            ctx.check(i.isempty() and not f.intersects(g), 'parallels intersect', lambda: f'{f!r}, {g!r}: {i}')
        else:
            ctx.check(f.intersects(g) and i.lower == i.upper and abs(ev(a, i.lower) - ev(b, i.lower)) <= 1e-9 * (1 + abs(ev(b, i.lower))), 'wrong intersection', lambda: f'{f!r}, {g!r}: {i}')
        j = g.intersection(f)
        ctx.check(ref.raw(i) == ref.raw(j) or abs(i.lower - j.lower) < 1e-9 * (1 + abs(i.lower)), 'intersection is not symmetric', lambda: f'{f!r}, {g!r}: {i}, {j}')
        ctx.count('intersections')
        eq = trim(a) == trim(b)
        ctx.check((f == g) == eq and (g == f) == eq and (f != g) == (not eq), 'wrong equality', lambda: f'{f!r}, {g!r}')
        ctx.check(not eq or hash(f) == hash(g), 'equal functions have different hashes', lambda: f'{f!r}, {g!r}')
        ctx.count('equalities')
        ctx.check((f == Undefined()) is False or (f == Undefined()) == 0, 'function equals undefined', msg)
        if isinstance(f, LinearFunction):
            ctx.check(bool(f.is_invertible()) == (a[1] != 0), 'wrong invertibility', msg)
            if a[1]:
                ctx.close(ev(a, f.root()), 0, 'wrong root', msg, abs_=1e-9)
                inv = f.invert()
                for x in (-1., 0., 2.):
                    ctx.close(inv(f(x)), x, 'wrong inverse', msg, abs_=1e-9)
                ctx.count('roots')
            g = LinearFunction.parse(str(f))
            fsame(ctx, g, a, 'wrong function from string', lambda: f'{f}')
            ctx.count('parsed')
    else:
        if a[2]:
            r = np.asarray(f.roots())
            det = a[1] ** 2 - 4 * a[2] * a[0]
            if abs(det) > 1e-9 or det == 0:
                ctx.check(len(r) == (2 if det > 0 else 1 if det == 0 else 0), 'wrong number of roots', lambda: f'{f!r}: {r}')
                for x in r:
                    ctx.close(ev(a, x), 0, 'wrong root', msg, abs_=1e-7)
                ctx.check(len(set(r.tolist())) == len(r), 'root occurs twice', lambda: f'{f!r}: {r}')
                ctx.count('roots')
            ctx.close(ev(d, f.argvertex()), 0, 'wrong vertex', msg, abs_=1e-9)
    ctx.check(hash(f) == hash(f.copy()), 'copy has another hash', msg)
    ctx.check(state(f) == before, 'operation changes the function', msg)
    # through points
    xs = rng.choice(len(POOL), size=3, replace=False)
    pts = [(POOL[int(k)], val(rng)) for k in xs]
    g = LinearFunction.from_points(*pts[:2])
    for x, y in pts[:2]:
        ctx.close(g(x), y, 'line misses a point', lambda: str(pts[:2]), abs_=1e-9)
    g = QuadraticFunction.from_points(*pts)
    for x, y in pts:
        ctx.close(g(x), y, 'parabola misses a point', lambda: str(pts), abs_=1e-7)
    ctx.count('fits')


def knots(ctx, rng):
    k, w, al = val(rng), val(rng), int(rng.choice([1, -1]))
    h = Hinge(k, al, w)
    j = Jump(k, al, w)
    im = Impulse(k, w)
    d = h.differentiate()
    for x in (k - 2, k - .5, k, k + .5, k + 2):
        ctx.close(h(x), w * max(0, (k - x) * al), 'wrong value of a hinge', lambda: repr(h), abs_=1e-12)
        ctx.close(j(x), w * (((k - x) * al) >= 0), 'wrong value of a jump', lambda: repr(j), abs_=1e-12)
        ctx.close(im(x), w * (x == k), 'wrong value of an impulse', lambda: repr(im), abs_=1e-12)
        if x != k:
            ctx.close(d(x), -al * w * ((k - x) * al > 0), 'wrong derivative of a hinge', lambda: repr(h), abs_=1e-12)
    ctx.count('knot functions')


# -- piecewise functions -----------------------------------------------------------------------------------------------
def scalar(ctx, rng):
    f, m = piecewise(rng, 2)
    same(ctx, f, m, 'wrong value', lambda: repr(f))
    b = [state(f)]
    msg = lambda: f'{f!r} and {s!r}'
    s = val(rng)
    if rng.random() < .3:
        s = int(s)
    same(ctx, f + s, m.map(lambda c: padd(c, (s,))), 'wrong sum with a number', msg)
    same(ctx, f * s, m.map(lambda c: pmul(c, (s,))), 'wrong product with a number', msg)
    same(ctx, s + f, m.map(lambda c: padd(c, (s,))), 'wrong reflected sum', msg)
    same(ctx, s * f, m.map(lambda c: pmul(c, (s,))), 'wrong reflected product', msg)
    if s:
        same(ctx, f / s, m.map(lambda c: pmul(c, (1 / s,))), 'wrong quotient', msg)
    same(ctx, f - s, m.map(lambda c: padd(c, (-s,))), 'wrong difference to a number', msg)
    ctx.count('scalar operations')
    ctx.count('reflected operations')
    g, c = elementary(rng, 1)
    s = g
    same(ctx, f + g, m.map(lambda a: padd(a, c)), 'wrong sum with a function', msg)
    same(ctx, f - g, m.map(lambda a: padd(a, tuple(-x for x in c))), 'wrong difference to a function', msg)
    if all(x is None or len(x) + len(c) <= 4 for _, _, x in m.segs):
        same(ctx, f * g, m.map(lambda a: pmul(a, c)), 'wrong product with a function', msg)
        if len(c) == 1:
            same(ctx, f * c[0], m.map(lambda a: pmul(a, c)), 'wrong product with a number', msg)
    s = val(rng)
    same(ctx, f.stretch(s), m.map(lambda a: pmul(a, (s,))), 'wrong stretching', lambda: f'{f!r} by {s}')
    ctx.count('stretches')
    for what, op in (('addition', lambda: f + 1), ('multiplication', lambda: f * 2), ('stretching', lambda: f.stretch(2.)), ('copy', f.copy)):
        independent(ctx, op(), b, [f], what)


def binary(ctx, rng):
    deg = int(rng.choice([1, 2], p=[.8, .2]))
    f, m = piecewise(rng, deg)
    g, n = piecewise(rng, deg)
    if rng.random() < .1:
        g, n = f, m
    b = [state(f), state(g)]
    msg = lambda: f'{f!r}\nand\n{g!r}'
    neg = lambda c: None if c is None else tuple(-x for x in c)
    r = f + g
    want = m.combine(n, padd)
    same(ctx, r, want, 'wrong sum', msg, (f, g))
    independent(ctx, f.add(g), b, [f, g], 'addition')
    ctx.count('sums of piecewise functions')
    same(ctx, f - g, m.combine(n, lambda x, y: padd(x, neg(y))), 'wrong difference', msg, (f, g))
    minimal(ctx, r, 'sum')
    if all(x is None or y is None or len(x) + len(y) <= 4 for _, _, x in m.segs for _, _, y in n.segs):
        same(ctx, f * g, m.combine(n, pmul), 'wrong product', msg, (f, g))
        ctx.count('products of piecewise functions')
        independent(ctx, f.mul(g), b, [f, g], 'multiplication')
    # feed the result back
    if rng.random() < .3:
        same(ctx, r + f, want.combine(m, padd), 'wrong sum', lambda: f'{r!r}\nand\n{f!r}', (f, g))
        ctx.count('chained')
    ctx.check((f == g) == (norm(m) == norm(n)), 'wrong equality', msg)
    keep = [hash(f), bytearray(200), hash(f.copy())]
    ctx.check(f == f.copy() and keep[0] == keep[2] and keep[0] in {hash(f) for _ in range(3)} and len({f, f.copy()}) == 1, 'copy is not equal', lambda: repr(f))
    ctx.count('equalities')


def norm(m):
    return [(lo, hi, None if c is None else trim(c)) if c is None or len(c) < 3 else (lo, hi, 'q', c) for lo, hi, c in m.segs]


def minimal(ctx, r, what):
    for (i, f), (j, g) in zip(list(r.iter()), list(r.iter())[1:]):
        ctx.check(not (i.upper == j.lower and f == g), f'{what} has equal neighbours', lambda: repr(r))


def domains(ctx, rng):
    f, m = piecewise(rng, 2)
    before = [state(f)]
    msg = lambda: repr(f)
    ctx.count('gaps', int(any(a[1] != b[0] for a, b in zip(m.segs, m.segs[1:]))))
    ctx.count('unbounded', int(m.segs[0][0] == -np.inf))
    # domain and boundaries
    ctx.check(ref.from_numberset(f.domain()) == ref.normalise([(lo, hi, bool(np.isfinite(lo)), False) for lo, hi, _ in m.segs]), 'wrong domain', lambda: f'{f!r}: {f.domain()}')
    ctx.check(state(f) == before[0], 'domain() changes the function', msg)
    bd = list(f.boundaries())
    # the end of a piece before a gap is its last number
    ctx.check(all(any(abs(x - e) < 1e-9 for e in m.ends()) for x in bd) and all(any(abs(x - e) < 1e-9 for x in bd) for e in m.ends()) and bd == sorted(bd),
              'wrong boundaries', lambda: f'{f!r}: {bd}')
    ctx.count('boundaries')
    xs = probes(m)
    for x in xs:
        i = f.idx_at(x)
        inside = [k for k, (lo, hi, _) in enumerate(m.segs) if lo <= x < hi]
        ctx.check(i == (inside[0] if inside else -1), 'wrong piece', lambda: f'{f!r} at {x}: {i}')
        iv = f.interval_at(x)
        ctx.check((x in iv) == bool(inside), 'wrong interval', lambda: f'{f!r} at {x}: {iv}')
        if not inside:
            ctx.count('outside of the domain')
            ctx.check(np.isnan(f(x)), 'value outside of the domain', lambda: f'{f!r} at {x}: {f(x)}')
    ys = np.asarray(f(np.array(xs)))
    ctx.check(all(np.isnan(y) and np.isnan(m(x)) or abs(y - m(x)) <= 1e-9 * (1 + abs(y)) for x, y in zip(xs, ys)), 'wrong values of several points', msg)
    # crop
    lo, hi = sorted(rng.choice(len(POOL), size=2, replace=False).tolist())
    lo, hi = POOL[lo], POOL[hi]
    if rng.random() < .2:
        lo = -np.inf
    elif rng.random() < .2:
        hi = np.inf
    c = f.crop(interval(lo, hi))
    same(ctx, c, Model([(max(a, lo), min(b, hi), k) for a, b, k in m.segs if max(a, lo) < min(b, hi)]), 'wrong crop', lambda: f'{f!r} to [{lo}, {hi})', (f,))
    independent(ctx, c, before, [f], 'cropping')
    ctx.count('crops')
    # overwrite
    g, k = elementary(rng, 1, .1)
    o = f.overwrite_at(interval(lo, hi), g)
    want = Model(sorted([(a, b, x) for s, e, x in m.segs for a, b in ((s, min(e, lo)), (max(s, hi), e)) if a < b] + [(lo, hi, k)], key=lambda s: s[0]))
    same(ctx, o, want, 'wrong overwriting', lambda: f'{f!r} at [{lo}, {hi}) by {g!r}', (f,))
    ctx.check(state(f) == before[0], 'overwriting changes its operand', msg)
    if k is not None:
        o2 = f.overwrite({interval(lo, hi): g if len(k) > 1 or rng.random() < .5 else k[0]})
        same(ctx, o2, want, 'wrong overwriting', lambda: f'{f!r} at [{lo}, {hi}) by {g!r}', (f,))
    independent(ctx, o, before, [f], 'overwriting')
    ctx.count('overwrites')
    # split
    x = float(rng.choice(POOL))
    if m.ends() and rng.random() < .3:
        x = float(rng.choice(m.ends()))
    if any(a <= x < b for a, b, _ in m.segs):
        l, r = f.split(x)
        same(ctx, l, Model([(a, min(b, x), c) for a, b, c in m.segs if a < min(b, x)]), 'wrong split', lambda: f'{f!r} at {x}', (f,))
        same(ctx, r, Model([(max(a, x), b, c) for a, b, c in m.segs if max(a, x) < b]), 'wrong split', lambda: f'{f!r} at {x}', (f,))
        independent(ctx, l, before, [f], 'splitting')
        ctx.count('splits')
    else:
        try:
            f.split(x)
        except ValueError:
            pass
        else:
            ctx.check(False, 'split outside of the domain', lambda: f'{f!r} at {x}')
    # drop undefined pieces
    d = f.drop_undef()
    same(ctx, d, Model([s for s in m.segs if s[2] is not None]), 'wrong removal of undefined pieces', msg, (f,))
    independent(ctx, d, before, [f], 'removal of undefined pieces')
    # simplify
    s = f.simplify()
    same(ctx, s, m, 'wrong simplification', msg, (f,))
    minimal(ctx, s, 'simplification')
    independent(ctx, s, before, [f], 'simplification')
    ctx.count('simplifications')


def transforms(ctx, rng):
    f, m = piecewise(rng, 1)
    before = [state(f)]
    msg = lambda: repr(f)
    d = float(rng.choice(POOL)) if rng.random() < .7 else float(round(rng.normal(), 3))
    s = f.xshift(d)
    same(ctx, s, Model([(a - d, b - d, c if c is None or len(c) == 1 else (c[0] + c[1] * d, c[1])) for a, b, c in m.segs]), 'wrong shift', lambda: f'{f!r} by {d}')
    independent(ctx, s, before, [f], 'shifting')
    ctx.count('shifts')
    if not any(c is None for _, _, c in m.segs):
        x = f.xmirror()
        # the value at the end of a domain moves to the other side
        ends = {e for e in m.ends() if sum(e in s[:2] for s in m.segs) == 1}
        for z in probes(m, Model([(-b, -a, None) for a, b, _ in m.segs])):
            if not any(abs(z + e) < 1e-9 for e in ends):
                y, e = x(z), m(-z)
                ctx.check(np.isnan(y) and np.isnan(e) or abs(y - e) <= 1e-9 * (1 + abs(e)), 'wrong mirror image', lambda: f'{f!r}: {y} instead of {e} at {z}', result=repr(x))
        independent(ctx, x, before, [f], 'mirroring')
        ctx.count('mirrors')
        q = f.round(2, include_intervals=bool(rng.random() < .5))
        for (i, g), (a, b, c) in zip(q.iter(), m.segs):
            ctx.check(all(abs(u - v) <= .005 + 1e-9 or u == v for u, v in ((i.lower, a), (i.upper, b))), 'wrong rounding', lambda: f'{f!r}: {q!r}')
            for k, v in enumerate(c):
                r = g.m if k else g.c
                ctx.check(abs(r - v) <= .005 + 1e-9 and abs(r * 100 - round(r * 100)) < 1e-9, 'wrong rounding', lambda: f'{f!r}: {q!r}')
        ctx.check(len(q) == len(f), 'wrong rounding', lambda: f'{f!r}: {q!r}')
        independent(ctx, q, before, [f], 'rounding')
        q = f.round(2, include_intervals=False)
        ctx.check([(i.lower, i.upper) for i in q.intervals] == [s[:2] for s in m.segs], 'rounding moves breakpoints', lambda: f'{f!r}: {q!r}')
        independent(ctx, q, before, [f], 'rounding')
        ctx.count('roundings')
        g = f.differentiate()
        same(ctx, g, m.map(lambda c: (c[1],) if len(c) > 1 else (0.,)), 'wrong derivative', msg)
        independent(ctx, g, before, [f], 'differentiation')
        ctx.count('derivatives')
        # integrals
        lo, hi = sorted((val(rng), val(rng)))
        F = lambda c, x: sum(v * x ** (k + 1) / (k + 1) for k, v in enumerate(c))
        if lo < hi:
            e = sum(F(c, min(b, hi)) - F(c, max(a, lo)) for a, b, c in m.segs if max(a, lo) < min(b, hi))
            ctx.close(f.integrate(ContinuousSet(lo, hi, *[INC if rng.random() < .5 else EXC for _ in 'ab'])), e, 'wrong integral', lambda: f'{f!r} in [{lo}, {hi}]', abs_=1e-9)
            ctx.count('integrals')
        if all(np.isfinite([a, b]).all() or trim(c) == (0.,) for a, b, c in m.segs):
            e = sum(F(c, b) - F(c, a) for a, b, c in m.segs if trim(c) != (0.,))
            ctx.close(f.integrate(), e, 'wrong integral', msg, abs_=1e-9)
        if all(np.isfinite([a, b]).all() or len(trim(c)) == 1 for a, b, c in m.segs):
            h = f.rectify()
            same(ctx, h, Model([(a, b, (c[0],) if len(trim(c)) == 1 else (ev(c, (a + b) / 2),)) for a, b, c in m.segs]), 'wrong rectification', msg)
            independent(ctx, h, before, [f], 'rectification')
            ctx.count('rectifications')
    kn = f.knots()
    want = [a for a, _, _ in m.segs if a > -np.inf] + ([m.segs[-1][1]] if m.segs[-1][1] < np.inf else [])
    ctx.check([x for x, _ in kn] == want, 'wrong knots', lambda: f'{f!r}: {kn}')
    for (x, y), c in zip(kn, [c for a, _, c in m.segs if a > -np.inf] + [m.segs[-1][2]]):
        ctx.check(np.isnan(y) and c is None or abs(y - ev(c, x)) <= 1e-9 * (1 + abs(y)), 'wrong knots', lambda: f'{f!r}: {kn}')
    # continuous functions through points
    pts = sorted(rng.choice(len(POOL), size=int(rng.integers(2, 6)), replace=False).tolist())
    pts = [(POOL[i], val(rng)) for i in pts]
    p = PiecewiseFunction.from_points(pts)
    for x, y in pts[:-1]:
        ctx.close(p(x), y, 'function through points misses a point', lambda: f'{pts}: {p!r}', abs_=1e-9)
    for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
        for l in (.25, .5, .999):
            ctx.close(p(x1 + l * (x2 - x1)), y1 + l * (y2 - y1), 'function through points is not linear', lambda: f'{pts}: {p!r}', abs_=1e-9)
    ctx.count('points')


def extrema(ctx, rng):
    f, m = piecewise(rng, 1, undefined=0, full=.4)
    g, n = piecewise(rng, 1, undefined=0, full=.4)
    if rng.random() < .2:
        g, n = f * -1, m.map(lambda c: tuple(-x for x in c))
    before = [state(f), state(g)]
    msg = lambda: f'{f!r}\nand\n{g!r}'
    for name, op in (('min', min), ('max', max)):
        if not any(max(a, c) < min(b, d) for a, b, _ in m.segs for c, d, _ in n.segs):
            break
        r = getattr(PiecewiseFunction, name)(f, g)
        for x in probes(m, n, r):
            if any(0 < abs(x - e) < 1e-9 for e in m.ends() + n.ends()):
                continue
            a, b = m(x), n(x)
            e = np.nan if np.isnan(a) or np.isnan(b) else op(a, b)
            ctx.count('evaluations')
            ctx.check(np.isnan(e) and np.isnan(r(x)) or abs(r(x) - e) <= 1e-9 * (1 + abs(e)), f'wrong {name}imum of functions', lambda: f'{msg()}: {r(x)} instead of {e} at {x}', result=repr(r))
        independent(ctx, r, before, [f, g], f'{name}imum')
        ctx.count('minima and maxima')
    r = PiecewiseFunction.abs(f)
    for x in probes(m, r):
        if any(0 < abs(x - e) < 1e-9 for e in m.ends()):
            continue
        e = abs(m(x))
        ctx.check(np.isnan(e) and np.isnan(r(x)) or abs(r(x) - e) <= 1e-9 * (1 + abs(e)), 'wrong absolute values', lambda: f'{f!r}: {r(x)} instead of {e} at {x}', result=repr(r))
    independent(ctx, r, before, [f, g], 'abs')
    # maximise
    if all(np.isfinite([a, b]).all() or len(trim(c)) == 1 for a, b, c in m.segs):
        s, v = f.maximize()
        sup = max(max(ev(c, a if np.isfinite(a) else 0.), ev(c, b if np.isfinite(b) else 0.)) for a, b, c in m.segs)
        ctx.close(v, sup, 'wrong maximum', lambda: repr(f), abs_=1e-9)
        raw = ref.from_numberset(s)
        ctx.check(bool(raw), 'maximum is attained nowhere', lambda: repr(f))
        for lo, hi, lc, hc in raw:
            for x in [x for x in (lo, hi, (lo + hi) / 2 if np.isfinite([lo, hi]).all() else np.nan) if np.isfinite(x)]:
                near = [c for a, b, c in m.segs if a - 1e-9 <= x <= b + 1e-9]
                ctx.check(any(abs(ev(c, x) - sup) <= 1e-7 for c in near), 'point is no maximum', lambda: f'{f!r}: {x} in {s!r}')
        # all of them
        for a, b, c in m.segs:
            if len(trim(c)) == 1 and c[0] == sup and v == sup:
                x = (a + b) / 2 if np.isfinite([a, b]).all() else b - 1 if np.isfinite(b) else a + 1 if np.isfinite(a) else 0.
                ctx.check(ref.contains(raw, x) and (not np.isfinite(a) or ref.contains(raw, a)), 'maximum is missing', lambda: f'{f!r}: {s!r} lacks {x}')
            elif len(c) > 1 and c[1] < 0 and ev(c, a) == sup and v == sup:
                ctx.check(ref.contains(raw, a), 'maximum is missing', lambda: f'{f!r}: {s!r} lacks {a}')
        ctx.check(state(f) == before[0], 'maximisation changes the function', msg)
        ctx.count('maximisations')


def levels(ctx, rng):
    """eq(y), lt(y), gt(y): the points at which the function is equal to, less or greater than y"""
    f, m = piecewise(rng, 1, undefined=0, full=.5)
    if rng.random() < .3:   # CDF-like
        x = sorted(rng.choice(len(POOL), size=int(rng.integers(2, 6)), replace=False).tolist())
        v = np.sort(rng.choice([0., .25, .5, .75, 1.], size=len(x)))
        pts = [(POOL[a], float(b)) for a, b in zip(x, v)]
        f, segs = PiecewiseFunction(), []
        f.append(ContinuousSet(-np.inf, pts[0][0], EXC, EXC), ConstantFunction(pts[0][1]))
        segs.append((-np.inf, pts[0][0], (pts[0][1],)))
        for (a, ya), (b, yb) in zip(pts, pts[1:]):
            sl = (yb - ya) / (b - a)
            g = LinearFunction(sl, ya - sl * a)
            f.append(interval(a, b), g)
            segs.append((a, b, (ya - sl * a, sl)))
        f.append(interval(pts[-1][0], np.inf), ConstantFunction(pts[-1][1]))
        segs.append((pts[-1][0], np.inf, (pts[-1][1],)))
        m = Model(segs)
    before = state(f)
    knots_ = [m(e) for e in m.ends()]
    knots_ = [k for k in knots_ if k == k]
    y = float(rng.choice(knots_)) if knots_ and rng.random() < .5 else val(rng)
    msg = lambda: f'{f!r} and {y}'
    got = {n: getattr(f, n)(y) for n in ('eq', 'lt', 'gt')}
    roots = [(y - c[0]) / c[1] for _, _, c in m.segs if len(c) == 2 and c[1]]
    e = sorted({*m.ends(), *[r for r in roots if np.isfinite(r)]} or {0.})
    xs = e + [e[0] - 1, e[-1] + 1] + [(a + b) / 2 for a, b in zip(e, e[1:])] + [x + d for x in e for d in (-1e-5, 1e-5)]
    raw = {n: [t for i in (g.intervals if isinstance(g, RealSet) else [g]) for t in ref.from_numberset(i)] for n, g in got.items()}
    for x in xs:
        v = m(x)
        if v != v:
            for n in raw:
                ctx.check(not ref.contains(raw[n], x) or any(abs(x - a) < 1e-4 for a in m.ends()), f'{n}() contains points outside of the domain', msg)
            continue
        tol = 1e-9 * (1 + abs(v) + abs(y)) * (1 + abs(x))
        crossing = any(x == s[0] and min(ev(p[2], x), v) < y < max(ev(p[2], x), v) for p, s in zip(m.segs, m.segs[1:]))
        last = [c for a, b, c in m.segs if a <= x < b][0]
        if abs(v - y) > tol:
            ctx.check(ref.contains(raw['lt'], x) == (v < y), 'wrong lower level set', lambda: f'{msg()}: {x}', result=repr(got['lt']))
            ctx.check(ref.contains(raw['gt'], x) == (v > y), 'wrong upper level set', lambda: f'{msg()}: {x}', result=repr(got['gt']))
            # where the function jumps across y, the point of discontinuity counts as an intersection
            if not crossing and not any(0 < abs(x - r) < 1e-9 for r in roots):
                ctx.check(not ref.contains(raw['eq'], x), 'wrong level set', lambda: f'{msg()}: {x}', result=repr(got['eq']))
        elif len(trim(last)) == 1:
            if v == y:
                ctx.check(not ref.contains(raw['lt'], x) and not ref.contains(raw['gt'], x), 'level set contains points at the level', lambda: f'{msg()}: {x}', result=repr(got))
                ctx.check(ref.contains(raw['eq'], x), 'level set lacks points', lambda: f'{msg()}: {x}', result=repr(got['eq']))
        elif x in roots:
            ctx.check(any(lo - 1e-7 * (1 + abs(x)) <= x <= hi + 1e-7 * (1 + abs(x)) for lo, hi, *_ in raw['eq']) or any(abs(x - a) < 1e-7 * (1 + abs(a)) for a in m.ends()),
                      'level set lacks points', lambda: f'{msg()}: {x}', result=repr(got['eq']))
        ctx.count('evaluations')
    ctx.check(state(f) == before, 'level sets change the function', msg)
    ctx.count('level sets')


def steps(rng):
    """A step function that is 0 outside of an interval -> (function, [(lower, upper, value)]); or an impulse"""
    if rng.random() < .1:
        x, w = val(rng), 1.
        return PiecewiseFunction.from_dict({R: Impulse(x, w)}), (x, w)
    n = int(rng.integers(1, 5))
    at = sorted(rng.choice(len(POOL), size=n + 1, replace=False).tolist())
    if rng.random() < .6:
        at = [POOL[i] for i in at]
    else:
        at = np.cumsum([round(float(rng.normal(0, 5)), 3)] + [round(float(rng.uniform(.02, 3)), 3) for _ in range(n)]).tolist()
    segs = [(lo, hi, val(rng) if rng.random() < .85 else 0.) for lo, hi in zip(at, at[1:])]
    d = {interval(-np.inf, at[0]): ConstantFunction(0)}
    d.update({interval(lo, hi): ConstantFunction(v) for lo, hi, v in segs})
    d[interval(at[-1], np.inf)] = ConstantFunction(0)
    return PiecewiseFunction.from_dict(d), segs


def convolutions(ctx, rng):
    (f, a), (g, b) = steps(rng), steps(rng)
    before = [state(f), state(g)]
    imp = isinstance(a, tuple), isinstance(b, tuple)
    if all(imp):
        return  # impulses cannot be shifted
    h = f.convolution(g)
    msg = lambda: f'{f!r} * {g!r}: {h!r}'
    if any(imp):
        (x, _), s = (a, b) if imp[0] else (b, a)
        want = lambda z: sum(v for lo, hi, v in s if lo <= z - x < hi)
        cuts = sorted({x + e for lo, hi, _ in s for e in (lo, hi)})
        ctx.count('convolutions with an impulse')
    else:
        want = lambda z: sum(v * w * max(0., min(hi, z - l) - max(lo, z - u)) for lo, hi, v in a for l, u, w in b)
        cuts = sorted({x + y for p in a for q in b for x in p[:2] for y in q[:2]})
        ctx.count('convolutions')
    cuts = [c for i, c in enumerate(cuts) if not i or c - cuts[i - 1] > 1e-6]
    zs = [(p + q) / 2 for p, q in zip(cuts, cuts[1:])] + [cuts[0] - 1, cuts[-1] + 1] + ([] if any(imp) else cuts)
    for z in zs:
        ctx.close(h(z), want(z), 'wrong convolution', lambda: f'{msg()} at {z}', abs_=1e-9)
        ctx.count('evaluations')
    independent(ctx, h, before, [f, g], 'convolution')


def case(ctx):
    rng = ctx.rng
    ops = [arithmetic, single, knots, scalar, binary, domains, transforms, extrema, levels, convolutions]
    f = ops[int(rng.choice(len(ops), p=[.11, .11, .01, .11, .17, .14, .14, .13, .06, .02]))]
    f(ctx, rng)
    if f not in (arithmetic, single, knots):
        ctx.nontrivial(f.__name__, int(rng.integers(1 << 60)))
