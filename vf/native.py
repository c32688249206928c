"""Workloads that are executed against differently built extensions (see checks/c26.py).

    python -m vf.native cases C08 SEED START COUNT     cases of another check
    python -m vf.native ops SEED COUNT [START]         hostile calls of the extension types
    python -m vf.native learn SEED COUNT               learning from degenerate data
    python -m vf.native print SEED COUNT               bitwise fingerprints of learned trees and answers

One JSON line per event: {"start": i} before, {"i": i, ...} after each unit.
"""
import importlib
import json
import os
import signal
import sys

import numpy as np

UNRAISABLE = []


def emit(**k):
    os.write(OUT, (json.dumps(k, default=str) + '\n').encode())


def hook(u):
    UNRAISABLE.append(f'{type(u.exc_value).__name__}: {u.exc_value} in {getattr(u.object, "__name__", u.object)}')


def name(e):
    return f'{type(e).__name__}: {str(e)[:120]}'


# -- cases of other checks --------------------------------------------------------------------------
def cases(prop, seed, start, count):
    from vf import core
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    ctx = core.Ctx(prop, 'quick', seed)
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    for i in range(start, start + count):
        emit(start=i, what=f'case {i} of {prop}')
        vs = core.run_case(mod, ctx, i)
        emit(i=i, out=sorted({v.mech for v in vs}), what=f'case {i} of {prop}', un=take())


def take():
    r = list(UNRAISABLE)
    UNRAISABLE.clear()
    return r


# -- hostile calls ----------------------------------------------------------------------------------
def pools():
    from jpt.base.functions import (PiecewiseFunction, LinearFunction, ConstantFunction, QuadraticFunction, Undefined)
    from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
    from jpt.distributions.quantile.quantiles import QuantileDistribution

    SPECIAL = [0., 1., -1., .5, 2., np.inf, -np.inf, np.nan, 1e308, -1e308, 5e-324, 1e-12]

    def real(r):
        return float(r.choice(SPECIAL)) if r.random() < .4 else float(np.round(r.normal(0, 2), int(r.integers(0, 4))))

    def finite(r):
        x = real(r)
        return x if np.isfinite(x) and abs(x) < 1e6 else 0.

    def integer(r):
        return int(r.choice([0, 1, 2, 3, 5, 17, 200, -1, -3]))

    def small(r):
        return int(r.choice([0, 1, 2, 3, 5, 17, 200]))

    def cset(r):
        k = r.random()
        if k < .1:
            return ContinuousSet.emptyset()
        if k < .15:
            return ContinuousSet.allnumbers()
        if k < .2:
            x = finite(r)
            return ContinuousSet(x, x)
        a, b = finite(r), finite(r)
        if r.random() < .8:
            a, b = min(a, b), max(a, b)
        lo = bool(r.random() < .12)
        hi = bool(r.random() < .12)
        try:
            return ContinuousSet(-np.inf if lo else a, np.inf if hi else b, EXC if lo or r.random() < .5 else INC,
                                 EXC if hi or r.random() < .5 else INC)
        except Exception:
            return ContinuousSet(0, 1)

    def rset(r):
        return RealSet([cset(r) for _ in range(int(r.choice([0, 1, 2, 3, 5])))])

    def nset(r):
        return cset(r) if r.random() < .5 else rset(r)

    def func(r):
        k = r.integers(4)
        if k == 0:
            return ConstantFunction(real(r))
        if k == 1:
            return LinearFunction(real(r), real(r))
        if k == 2:
            return QuadraticFunction(real(r), real(r), real(r))
        return Undefined()

    def simple(r):
        return ConstantFunction(finite(r)) if r.random() < .4 else LinearFunction(finite(r), finite(r))

    def plf(r):
        f = PiecewiseFunction()
        n = int(r.choice([0, 1, 2, 3, 6], p=[.25, .2, .2, .2, .15]))
        xs = sorted({finite(r) for _ in range(n + 1)})
        gaps = r.random() < .3
        inf = r.random() < .5
        for i, (a, b) in enumerate(zip(xs, xs[1:])):
            if gaps and r.random() < .3:
                continue
            f.append(ContinuousSet(-np.inf if inf and not i else a, b, EXC if inf and not i else INC, EXC), simple(r))
        if inf and n and len(f):
            f.append(ContinuousSet(xs[-1], np.inf, INC, EXC), simple(r))
        return f

    def pdf(r):
        f = PiecewiseFunction()
        n = int(r.choice([0, 1, 2, 4]))
        xs = sorted({finite(r) for _ in range(n + 1)})
        w = r.dirichlet(np.ones(max(1, len(xs) - 1)))
        if len(xs) > 1:
            f.append(ContinuousSet(-np.inf, xs[0], EXC, EXC), ConstantFunction(0))
            for (a, b), p in zip(zip(xs, xs[1:]), w):
                f.append(ContinuousSet(a, b, INC, EXC), ConstantFunction(float(p / (b - a))))
            f.append(ContinuousSet(xs[-1], np.inf, INC, EXC), ConstantFunction(0))
        return f

    def array(r):
        n = int(r.choice([0, 1, 2, 3, 10, 50]))
        x = np.array([real(r) for _ in range(n)], dtype=np.float64)
        k = r.random()
        if k < .1:
            return np.repeat(x, 2)[::2]
        if k < .2:
            return x[::-1]
        return x

    def data(r):
        n, m = int(r.choice([1, 2, 3, 10])), int(r.choice([1, 2, 3]))
        x = np.array([[finite(r) for _ in range(m)] for _ in range(n)])
        return np.ascontiguousarray(x)

    def points(r):
        xs = sorted({finite(r) for _ in range(int(r.choice([0, 1, 2, 3, 6])))})
        return [(x, finite(r)) for x in xs]

    def point(r):
        return finite(r), finite(r)

    def qd(r):
        k = r.random()
        d = QuantileDistribution(*([] if r.random() < .6 else [float(r.choice([0, .01, .5]))]))
        if k < .25:
            return d
        x = data(r)
        if k < .4:
            x[:] = x[0]
        return d.fit(x, None, int(r.integers(x.shape[1])))

    def unweighted(r):
        return None

    def weights(r):
        return None if r.random() < .3 else [float(abs(finite(r))) for _ in range(int(r.choice([0, 1, 2, 3])))]

    def qds(r):
        return [qd(r) for _ in range(int(r.choice([0, 1, 2, 3])))]

    def rows(r):
        k = r.random()
        if k < .4:
            return None
        return np.array([int(r.integers(0, 10)) for _ in range(int(r.choice([0, 1, 3])))], dtype=np.int64)

    def string(r):
        return str(r.choice(['', '[', '[]', '[0,1]', '(0,1)', ']0,1[', '[1,0]', '[,]', '[a,b]', '(-inf,inf)', '[0', '0,1]', '[0;1]', '[nan,1]',
                             '∅', '[0,1,2]', '2x', 'x', '-x + 1', '1.5x - 2', '+']))

    def digits(r):
        return int(r.integers(0, 5))

    def flag(r):
        return bool(r.random() < .5)

    def end(r):
        return int(r.choice([-1, 0, 1, 2, 3]))

    def same(r):
        return None

    return dict(locals())


# class -> [(method, argument kinds...)]; a leading 's:' marks static and class methods, 'p:' properties,
# an argument kind with '?' may be left out or None
SPEC = {
    'cset': ['copy', 'itype', 'isempty', 'isclosed', 'isninf', 'ispinf', 'isinf', 'size', 'fst', 'uppermost', 'lowermost', 'complement',
             'simplify', 'xmirror', 'any_point', 'range', 'pfmt', 'to_json', '__repr__', '__str__', '__bool__', '__hash__', 'p:min', 'p:max', 'p:width',
             'sample small', 'sample small buffer', 'linspace small real? real? ', 'linspace small real real buffer', 'contains_value real', 'contains_interval nset',
             'contains_interval nset flag', 'contiguous cset', 'intersects nset', 'isdisjoint nset', 'intersection cset', 'intersection cset end end',
             'boundaries end end', 'union cset', 'difference nset', 'chop reals', 'ends end end', '__round__ digits', '__contains__ real', '__contains__ nset',
             '__eq__ nset', '__ne__ nset', '__or__ nset', '__and__ nset', '__sub__ nset', 's:comparator cset cset', 's:fromstring string',
             's:from_json json', '__setstate__ state'],
    'rset': ['copy', 'isempty', 'isninf', 'ispinf', 'isinf', 'size', 'fst', 'complement', 'simplify', 'xmirror', 'any_point', 'to_json', '__repr__',
             '__str__', '__bool__', '__hash__', 'p:min', 'sample small', 'sample small buffer', 'contains_value real', 'contains_interval nset', 'intersects nset',
             'isdisjoint nset', 'intersection nset', 'intersections rset', 'union nset', 'difference nset', 'chop reals', '__round__ digits',
             '__contains__ real', '__eq__ nset', '__ne__ nset', '__or__ nset', '__and__ nset', '__sub__ nset', '__setstate__ state'],
    'func': ['eval real', 'multi_eval array', 'multi_eval array buffer', '__call__ real', '__call__ array', 'mul func', 'add func', 'set func', '__add__ func',
             '__mul__ func', '__add__ real', '__mul__ real', '__sub__ func', '__sub__ real', '__eq__ func', 'simplify', 'copy', 'xmirror', 'to_json', '__hash__', '__repr__',
             'differentiate', 'is_invertible', 'intersects func', 'intersection func', 'integrate real real', 'xshift real', 'invert', 'root', 'roots', 'argvertex',
             'fit array array', 'fit array array array', 's:from_points point point', 's:from_points point point point', 's:parse string', 'hmirror'],
    'plf': ['eval real', 'multi_eval array', 'multi_eval array buffer', '__call__ real', '__call__ array', 'mul func', 'add func', 'mul plf', 'add plf',
            '__add__ plf', '__mul__ plf', '__sub__ plf', '__add__ real', '__mul__ real', '__sub__ real', '__truediv__ real', '__eq__ plf', '__hash__', '__repr__',
            'drop_undef', '__getitem__ integer', 'at real', 'idx_at real', '__len__', 'interval_at real', 'copy', 'overwrite_at cset func', 'overwrite dict',
            'split real', 'stretch finite', 'pfmt', 'differentiate', 'integrate', 'integrate cset', 'eq real', 'knots', 'knots real', 'crop cset', 'to_json',
            'round digits', 'round digits flag', 'domain', 'simplify', 'is_impulse', 'xshift finite', 'boundaries', 'xmirror', 'convolution plf', 'rectify',
            'maximize', 'xsamples', 'approximate finite', 's:min plf plf', 's:max plf plf', 's:abs plf', 's:combine plf plf op', 's:jaccard_similarity plf plf',
            's:jaccard_similarity plf plf cset', 's:from_points points', 's:zero cset', 's:zero', 's:from_dict dict', 's:from_json json'],
    'qd': ['copy', '__hash__', '__eq__ qd', 'crop cset', 'jumps', 'p:cdf', 'p:pdf', 'p:ppf', 'sample small', 'to_json', 's:from_json json', 's:from_cdf plf',
           's:from_pdf plf', 's:from_pdf pdf', 's:pdf_to_cdf plf', 's:pdf_to_cdf pdf weights', 's:merge qds weights', 's:merge qds', 'fit data none col',
           'fit data rows col'],
}


class Alarm(Exception):
    pass


def ops(seed, count, start=0):
    import functools
    P = pools()
    from jpt.base.functions import PiecewiseFunction
    from jpt.base.intervals import ContinuousSet

    def arg(kind, r, obj, seen):
        kind = kind.rstrip('?')
        if kind == 'buffer':
            n = max([len(a) for a in seen if isinstance(a, np.ndarray)] + [a for a in seen if type(a) is int] + [0])
            return np.zeros(max(0, n + int(r.choice([0, 0, 0, 1, 5, -1, -n]))), dtype=np.float64)
        if kind == 'reals':
            return [P['real'](r) for _ in range(int(r.choice([0, 1, 3])))]
        if kind == 'json':
            try:
                return obj.to_json()
            except Exception:
                return {}
        if kind == 'state':
            try:
                return obj.__getstate__()
            except Exception:
                return ()
        if kind == 'dict':
            return {P['cset'](r): (P['simple'](r) if r.random() < .7 else P['finite'](r)) for _ in range(int(r.choice([0, 1, 2, 4])))}
        if kind == 'op':
            return str(r.choice(['min', 'max', 'other']))
        if kind == 'none':
            return None
        if kind == 'col':
            return int(r.integers(0, seen[0].shape[1]))
        if kind == 'rows':
            return np.array([int(r.integers(0, len(seen[0]))) for _ in range(int(r.choice([0, 1, 3])))], dtype=np.int64)
        return P[kind](r)

    def use(x, depth=0):
        """look at the result"""
        if x is None or depth > 2:
            return
        if isinstance(x, (list, tuple)):
            for y in x[:5]:
                use(y, depth + 1)
            return
        if type(x).__name__ in ('_memoryviewslice', 'memoryview'):
            np.asarray(x).tolist()
            return
        for m in ('__repr__', 'copy', 'isempty', 'simplify'):
            f = getattr(x, m, None)
            if f is not None and not isinstance(x, (str, dict, np.ndarray)):
                try:
                    f()
                except (TypeError, ValueError, NotImplementedError, Alarm):
                    pass

    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    kinds = sorted(SPEC)
    for i in range(start, start + count):
        r = np.random.default_rng([seed, 26, i])
        np.random.seed(i)
        kind = kinds[i % len(kinds)]
        spec = SPEC[kind][int(r.integers(len(SPEC[kind])))].split()
        emit(start=i, what=f'{kind}.{" ".join(spec)}')
        signal.alarm(20)
        args = []
        try:
            obj = P[kind](r)
        except Exception as e:
            emit(i=i, out=['constructor ' + name(e)], what=f'constructing {kind}', un=take())
            continue
        m = spec[0]
        static = m.startswith('s:')
        prop = m.startswith('p:')
        m = m[2:] if static or prop else m
        try:
            for k in spec[1:]:
                if k.endswith('?') and r.random() < .4:
                    break
                args.append(arg(k, r, obj, args))
        except Exception as e:
            emit(i=i, out=['argument ' + name(e)], what='', un=take())
            continue
        try:
            what = f'{type(obj).__name__}.{m}({", ".join(map(short, args))}) of {short(obj)}'
        except Exception as e:
            what = f'{type(obj).__name__}.{m}: {name(e)}'
        emit(start=i, what=what)
        out, res = 'ok', ''
        try:
            f = getattr(type(obj) if static else obj, m)
            x = f(*args) if not prop else f
            if hasattr(x, '__next__'):
                x = [y for y, _ in zip(x, range(50))]
            use(x)
            if kind in ('plf', 'qd', 'rset', 'cset', 'func'):
                repr(obj)
            res = value(x) + value(obj) if m not in ('__hash__', '__repr__') else ''
        except Alarm:
            raise
        except BaseException as e:
            out = name(e)
        signal.alarm(0)
        emit(i=i, out=[out], what=what, un=take(), method=f'{type(obj).__name__}.{m}', res=res)


def value(x):
    """a printable form of a result that depends on its value only"""
    if type(x).__name__ in ('_memoryviewslice', 'memoryview'):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        return str(x.tolist()[:60])
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(map(value, x[:20])) + ']'
    if type(x).__name__ == 'PiecewiseFunction':
        return ';'.join(value(i) + ':' + value(f) for i, f in zip(x.intervals, x.functions))
    if type(x).__name__ == 'QuantileDistribution':
        return value(x.cdf)
    if type(x).__name__ == 'ContinuousSet':
        return f'{x.left}{x.lower!r},{x.upper!r}{x.right}'
    if type(x).__name__ == 'RealSet':
        return value(list(x.intervals))
    if type(x).__name__ in ('LinearFunction', 'ConstantFunction', 'QuadraticFunction'):
        return str(sorted(x.to_json().items()))
    if x is None or isinstance(x, (int, float, str, bool, np.number)):
        return repr(x)
    return ''


def short(x):
    if isinstance(x, np.ndarray):
        return f'array{x.shape}{x.ravel()[:4].tolist()}'
    if type(x).__name__ == 'PiecewiseFunction':
        return 'PLF<' + '; '.join(f'{i}: {f}' for i, f in zip(x.intervals, x.functions))[:160] + '>'
    if type(x).__name__ == 'QuantileDistribution':
        return 'QD<' + (short(x.cdf) if x.cdf is not None else 'unfitted') + '>'
    return str(x)[:80]


# -- degenerate data --------------------------------------------------------------------------------
def learn(seed, count, start=0):
    from jpt.trees import JPT
    from jpt.distributions import Numeric
    from vf import gen
    for i in range(start, start + count):
        r = np.random.default_rng([seed, 27, i])
        gen._uid[0] = 0
        kinds = [str(k) for k in r.choice(['numeric', 'scaled', 'symbolic', 'bool', 'integer'], size=int(r.integers(1, 7)))]
        w = gen.make_world(r, n=int(r.choice([1, 1, 2, 2, 3, 4, 7, 30])), kinds=kinds, nvars=len(kinds))
        n = w.n
        how = str(r.choice(['plain', 'constant', 'huge', 'denormal', 'nan', 'inf', 'neg zero', 'adjacent']))
        for v in w.variables:
            c = w.cols[v.name]
            if how == 'constant':
                w.cols[v.name] = [c[0]] * n
            elif v.numeric and how != 'plain':
                x = np.array(c)
                j = r.integers(0, n, max(1, n // 3))
                if how == 'huge':
                    x = x * 1e300
                elif how == 'denormal':
                    x = x * 1e-310
                elif how == 'nan':
                    x[j] = np.nan
                elif how == 'inf':
                    x[j] = r.choice([np.inf, -np.inf])
                elif how == 'neg zero':
                    x[j] = -0.
                else:
                    x[j] = np.nextafter(x[0], np.inf)
                w.cols[v.name] = x.tolist()
        h = {'min_samples_leaf': [1, 1, 2, n, n + 3, .5, .01][int(r.integers(7))]}
        if r.random() < .3:
            h['max_depth'] = int(r.integers(0, 3))
        if r.random() < .5 and len(kinds) > 1:
            k = int(r.integers(1, len(kinds)))
            p = r.permutation(len(kinds))
            h['targets'] = [w.variables[q] for q in p[:k]]
            if r.random() < .5:
                h['features'] = [w.variables[q] for q in p[k:]]
        if r.random() < .3:
            deps = {v: [u for u in w.variables if r.random() < .6] or [v] for v in w.variables}
            h['dependencies'] = deps
        what = f'learn {how} {n} x {kinds} {str({k: v for k, v in h.items()})[:200]}'
        emit(start=i, what=what)
        signal.alarm(60)
        out = []
        try:
            t = JPT(variables=w.variables, **h)
            t.learn(rows=w.rows(), close_convex_gaps=bool(r.random() < .7), keep_samples=bool(r.random() < .3))
            out.append(len(t.leaves))
            for f in (lambda: t.infer(*[gen.event(r, w, t, gen.subset(r, w.names, lo=1))[0] for _ in range(2)]), lambda: t.mpe(), lambda: t.likelihood(np.array(w.rows(), dtype=object)),
                      lambda: t.sample(3), lambda: t.posterior(), lambda: t.expectation(), lambda: list(t.kmpe(k=3)), lambda: t.prune(.5),
                      lambda: JPT.from_json(t.to_json()), lambda: t.encode(np.array(w.rows(), dtype=object))):
                try:
                    f()
                    out.append('ok')
                except Exception as e:
                    out.append(name(e))
        except Exception as e:
            out.append(name(e))
        signal.alarm(0)
        emit(i=i, out=[str(x) for x in out], what=what, un=take(), method='JPT.learn')


# -- fingerprints -----------------------------------------------------------------------------------
def fingerprints(seed, count, start=0):
    import hashlib
    from vf.checks import c24
    for i in range(start, start + count):
        emit(start=i, what=f'fingerprint {i}')
        a, b = c24.fingerprint(int(np.random.default_rng([seed, 28, i]).integers(2 ** 31)))
        s = json.dumps(a, default=str)
        emit(i=i, out=[hashlib.md5(s.encode()).hexdigest()], nums=b, what=f'fingerprint {i}', un=take())


if __name__ == '__main__':
    OUT = os.dup(1)
    os.dup2(2, 1)
    from vf.main import quiet
    quiet()
    sys.unraisablehook = hook
    a = sys.argv
    if os.environ.get('VF_POISON'):
        import vfmon
        vfmon.poison(int(os.environ['VF_POISON'], 0))
    if a[1] == 'canary':
        import vfmon
        emit(start=0, what=a[2])
        out = res = 'ok'
        try:
            res = getattr(vfmon, a[2])()
        except Exception as e:
            out = name(e)
        emit(i=0, out=[out], what=a[2], un=take(), res=str(res))
    elif a[1] == 'cases':
        cases(a[2], int(a[3]), int(a[4]), int(a[5]))
    else:
        {'ops': ops, 'learn': learn, 'print': fingerprints}[a[1]](*map(int, a[2:]))
    emit(end=1, poisoned=vfmon.stats() if os.environ.get('VF_POISON') else None)
