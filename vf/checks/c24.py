"""Learning depends on the data only."""
import copy
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np
import pandas as pd

from jpt.base.errors import Unsatisfiability
from jpt.distributions import Bool, IntegerType, Multinomial, Numeric, NumericType, SymbolicType, Integer
from jpt.trees import JPT
from jpt.variables import IntegerVariable, NumericVariable, SymbolicVariable, infer_from_dataframe

from vf import canon, core, dists, gen, learnref, ref

PROPERTY = 'C24'
RULE = ('The same random data is learned from lists, tuples, arrays and data frames (of several dtypes, column memory layouts and row '
        'indices), in row and column shape, repeatedly, by refitted, copied and restored models, in other states of the random '
        'generators, in concurrent threads (with a tiny switch interval) and in other processes with other hash seeds: the '
        'trees must be identical, and the arguments and variables unchanged. The rows are permuted and the tree must have the same leaves '
        '(sets of rows, distributions) where every split is unique. Variables inferred from data frames must have the kinds, ranges, labels, scalings and '
        'settings that the columns and options demand and give the same tree as variables made by hand. Illegal data must be rejected. '
        'Concurrent queries of one tree must answer like sequential ones. Non-trivial: a tree with a decision node.')
CASES = {'quick': 900, 'thorough': 30000}
REQUIRED = ['learned in another format', 'data frames', 'unusual indices', 'unusual dtypes', 'row shape', 'column shape', 'arrays', 'refitted models', 'copied models',
            'restored models', 'arguments unchanged', 'permuted rows', 'unique trees', 'permuted leaves', 'hash seeds', 'concurrent learners', 'concurrent queries',
            'inferred variables', 'user-provided domains', 'rejected data', 'kept samples']
ASSUMPTIONS = ['permuted rows are only compared where no two admissible splits of different effect are equally good',
               'threads are scheduled by the interpreter (global lock); the extensions do not start threads']
CPU_LIMIT = 150.


def diff(a, b, p=''):
    """first difference of two canonical forms"""
    if type(a) is not type(b):
        return f'{p}: {str(a)[:80]} | {str(b)[:80]}'
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f'{p}.{k} missing'
            if a[k] != b[k]:
                return diff(a[k], b[k], f'{p}.{k}')
        return f'{p}: keys {list(a)} | {list(b)}'
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{p}: lengths {len(a)} | {len(b)}: {str(a)[:150]} | {str(b)[:150]}'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{p}[{i}]')
    return f'{p}: {str(a)[:80]} | {str(b)[:80]}'


def same(ctx, a, b, what, **detail):
    ctx.check(a == b, f'{what} gives another tree', lambda: diff(a, b), world=ctx.note, **detail)


# -- formats ----------------------------------------------------------------------------------------
def formats(rng, w):
    """name -> (keyword, object)"""
    rows, cols, df = w.rows(), w.columns(), w.df()
    kinds = set(w.kinds.values())
    homog = kinds <= {'numeric', 'scaled', 'integer', 'bool'}
    obj = np.empty((w.n, len(w.variables)), dtype=object)
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            obj[i, j] = x
    f = {
        'rows': ('rows', rows),
        'rows as data': ('data', rows),
        'tuples': ('rows', [tuple(r) for r in rows]),
        'columns': ('columns', cols),
        'column tuples': ('columns', [tuple(c) for c in cols]),
        'column arrays': ('columns', [np.array(c, dtype=object) for c in cols]),
        'column series': ('columns', [df[c] for c in df.columns]),
        'object array': ('rows', obj),
        'object array as data': ('data', obj),
        'object array in columns': ('columns', obj.T),
        'fortran array': ('rows', np.asfortranarray(obj)),
        'strided array': ('rows', np.repeat(obj, 2, axis=0)[::2]),
        'list of arrays': ('rows', list(obj)),
        'frame': ('data', df),
    }
    if homog and not kinds & {'bool'}:
        f['float array'] = ('rows', np.array(rows, dtype=np.float64))
        f['float array in columns'] = ('columns', np.array(cols, dtype=np.float64))
        f['read-only array'] = ('rows', np.array(rows, dtype=np.float64))
        f['read-only array'][1].setflags(write=False)
    n = w.n
    idx = {
        'reversed': list(range(n))[::-1], 'duplicate': [0] * n, 'string': ['r%d' % i for i in range(n)],
        'float': [i / 7 for i in range(n)], 'shuffled': [int(i) for i in rng.permutation(n)], 'offset': list(range(10, n + 10)),
        'dates': list(pd.date_range('2020-01-01', periods=n)),
        'multi': pd.MultiIndex.from_arrays([[i % 3 for i in range(n)], [i % 2 for i in range(n)]]),
    }
    for k in rng.choice(list(idx), 2, replace=False):
        f[f'frame with {k} index'] = ('data', df.set_axis(idx[k], axis=0))
    f['concatenated frame'] = ('data', pd.concat([df.iloc[:n // 2], df.iloc[n // 2:].reset_index(drop=True)]))
    f['filtered frame'] = ('data', pd.concat([df, df])[np.arange(2 * n) < n])
    f['object frame'] = ('data', df.astype(object))
    f['frame of an array'] = ('data', pd.DataFrame(obj, columns=w.names))
    d = df.copy()
    for v in w.variables:
        k = w.kinds[v.name]
        c = d[v.name]
        if k == 'integer':
            t = rng.choice(['int8', 'int16', 'int32', 'Int64', 'float64', 'category'])
        elif k in ('numeric', 'scaled'):
            whole = bool(np.all(c == np.round(c)) and np.max(np.abs(c)) < 1000)
            t = rng.choice(['Float64', 'object', 'category'] + (['int64', 'int32', 'Int64'] if whole else []))
        elif k == 'bool':
            t = rng.choice(['boolean', 'object', 'category'])
        else:
            t = rng.choice(['category', 'string'] if isinstance(w.cols[v.name][0], str) else ['category', 'int64', 'int32'])
        d[v.name] = c.astype(t)
    f['frame of other dtypes'] = ('data', d)
    return f


def snapshot(x):
    if isinstance(x, pd.DataFrame):
        return ['df', list(x.columns), [str(t) for t in x.dtypes], [repr(i) for i in x.index], [[repr(v) for v in x[c]] for c in x.columns]]
    if isinstance(x, np.ndarray):
        return ['a', str(x.dtype), x.shape, [repr(v) for v in x.ravel()]]
    if isinstance(x, pd.Series):
        return ['s', str(x.dtype), [repr(v) for v in x]]
    return [type(x).__name__] + [snapshot(i) if isinstance(i, (list, tuple, np.ndarray, pd.Series)) else repr(i) for i in x]


def variables_state(w):
    return [[canon.canon(v), canon.domain(v), json.dumps(v.to_json(), default=str, sort_keys=True)] for v in w.variables]


def case_formats(ctx, rng):
    w = gen.make_world(rng)
    h = gen.hyper(rng, w)
    kw = {'close_convex_gaps': bool(rng.random() < .5), 'keep_samples': bool(rng.random() < .3)}
    ctx.count('kept samples', int(kw['keep_samples']))
    vs = variables_state(w)
    t0 = JPT(variables=w.variables, **h)
    t0.learn(rows=w.rows(), **kw)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t0)
    A = canon.tree(t0)
    ctx.check(variables_state(w) == vs, 'learning changes the variables', lambda: diff(vs, variables_state(w)))
    if kw['keep_samples']:
        s = sorted(int(i) for l in t0.leaves.values() for i in l.s_indices)
        ctx.check(s == list(range(w.n)), 'kept samples are not those of the data', str(s)[:200])
    f = formats(rng, w)
    names = list(f)
    for k in [names[i] for i in rng.permutation(len(names))[:6]]:
        arg, x = f[k]
        before = snapshot(x)
        t = JPT(variables=w.variables, **h)
        t.learn(**{arg: x}, **kw)
        same(ctx, A, canon.tree(t), f'learning from {k}')
        ctx.check(snapshot(x) == before, 'learning changes its argument', lambda: f'{k}: {diff(before, snapshot(x))}')
        ctx.count('arguments unchanged')
        ctx.count('learned in another format')
        ctx.count('data frames', int('frame' in k))
        ctx.count('unusual indices', int('index' in k or 'concat' in k or 'filtered' in k))
        ctx.count('unusual dtypes', int('dtypes' in k))
        ctx.count('row shape', int(arg == 'rows'))
        ctx.count('column shape', int(arg == 'columns'))
        ctx.count('arrays', int('array' in k))
    # repeated learning in other states
    r = int(rng.integers(6))
    np.random.seed(int(rng.integers(2 ** 31)))
    random.seed(int(rng.integers(2 ** 31)))
    if r == 0:          # refit
        t0.learn(rows=w.rows(), **kw)
        same(ctx, A, canon.tree(t0), 'learning again')
        ctx.count('refitted models')
    elif r == 1:        # refit after other data
        t = JPT(variables=w.variables, **h)
        k = [int(i) for i in rng.permutation(w.n)[:max(1, int(w.n * rng.uniform(.2, 1)))]]
        rows = w.rows()
        t.learn(rows=[rows[i] for i in k], close_convex_gaps=bool(rng.random() < .5), keep_samples=bool(rng.random() < .5))
        t.learn(rows=rows, **kw)
        same(ctx, A, canon.tree(t), 'learning after other data')
        ctx.count('refitted models')
    elif r == 2:
        t = t0.copy()
        t.learn(rows=w.rows(), **kw)
        same(ctx, A, canon.tree(t), 'learning with a copied model')
        same(ctx, A, canon.tree(t0), 'learning with a copy')
        ctx.count('copied models')
    elif r == 3:
        t = JPT.from_json(json.loads(json.dumps(t0.to_json())))
        t.learn(rows=w.rows(), **kw)
        B = canon.tree(t)
        a = {k: v for k, v in A.items() if k not in ('vars', 'mindist')}
        same(ctx, a, {k: v for k, v in B.items() if k not in ('vars', 'mindist')}, 'learning with a restored model')
        ctx.count('restored models')
    elif r == 4:        # variables made anew
        w2 = copy.copy(w)
        w2.variables = [type(v).from_json(json.loads(json.dumps(v.to_json()))) for v in w.variables]
        h2 = {k: ([x.name for x in v] if isinstance(v, list) else v) for k, v in h.items()}
        t = JPT(variables=w2.variables, **h2)
        t.learn(columns=w.columns(), **kw)
        a = {k: v for k, v in A.items() if k not in ('vars', 'mindist')}
        same(ctx, a, {k: v for k, v in canon.tree(t).items() if k not in ('vars', 'mindist')}, 'learning with restored variables')
    else:               # another tree is learned in between
        t = JPT(variables=w.variables, **h)
        gen.world_tree(rng)
        t.learn(rows=w.rows(), **kw)
        same(ctx, A, canon.tree(t), 'learning after another tree')
        same(ctx, A, canon.tree(t0), 'learning of another tree')
    # priors are fitted to all data
    if t0.innernodes:
        ctx.nontrivial('formats', w.n, len(t0.leaves), sorted(w.kinds.values()))


# -- permutations -----------------------------------------------------------------------------------
def unique(ctx, t, w, h, kw):
    """every decision of the learner has a clear winner (in the running mean that the learner uses, see C10)"""
    X = w.values()
    ix = {v.name: i for i, v in enumerate(w.variables)}
    crit = learnref.Criterion(X, w.variables, t.targets, t.features)
    rows, depth = learnref.route(t, X, ix)
    msl = learnref.required(h, w.n)
    mi = h.get('min_impurity_improvement') or 0
    for idx, r in rows.items():
        if depth[idx] >= t.max_depth:
            continue
        c = []
        for f in crit.features:
            for v, left in crit.candidates(r, f):
                nl = int(left.sum())
                if nl < msl or len(r) - nl < msl:
                    continue
                c.append((crit.gain(r, left, f, 'running'), f, tuple(left if left[0] else ~left)))
        if not c:
            continue
        best = max(x[0] for x in c)
        if abs(best - mi) < 1e-7 or best < 1e-7:
            return False
        if best < mi:
            continue
        if len({x[1:] for x in c if x[0] > best - 1e-7}) > 1:
            return False
    return True


def leaf_key(t, w):
    X = w.values()
    rows, _ = learnref.route(t, X, {v.name: i for i, v in enumerate(w.variables)})
    return {i: [int(x) for x in rows[i]] for i in t.leaves}


def case_permuted(ctx, rng):
    w = gen.make_world(rng, n=int(rng.choice([5, 10, 20, 40, 70])), nvars=int(rng.integers(1, 5)))
    h = gen.hyper(rng, w)
    kw = {'close_convex_gaps': bool(rng.random() < .5)}
    t = gen.make_tree(rng, w, 'rows', kw, **h)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ctx.note = gen.describe(w, t)
    ctx.count('permuted rows')
    p = [int(i) for i in rng.permutation(w.n)]
    rows = w.rows()
    u = JPT(variables=w.variables, **h)
    u.learn(rows=[rows[i] for i in p], **kw)
    # the priors never depend on the order
    for v in w.variables:
        same_dist(ctx, v, t.priors[v], u.priors[v], 'prior')
    ctx.check(t.minimal_distances == u.minimal_distances, 'minimal distances depend on the order of rows', '')
    if not unique(ctx, t, w, h, kw):
        return
    ctx.count('unique trees')
    a, b = leaf_key(t, w), leaf_key(u, w)
    A, B = {tuple(r): i for i, r in a.items()}, {tuple(r): i for i, r in b.items()}
    ctx.check(set(A) == set(B), 'partition depends on the order of rows', lambda: f'{sorted(A)} | {sorted(B)}'[:400], world=ctx.note)
    for r, i in A.items():
        x, y = t.leaves[i], u.leaves[B[r]]
        ctx.count('permuted leaves')
        ctx.check(x.samples == y.samples and x.prior == y.prior, 'leaf weights depend on the order of rows', f'{x.prior} {y.prior}')
        for v in w.variables:
            # closing of gaps follows the paths, which may differ when several variables induce the same split
            if not kw['close_convex_gaps'] or canon.path(x) == canon.path(y) or not v.numeric:
                same_dist(ctx, v, x.distributions[v], y.distributions[v], 'leaf')
    if t.innernodes:
        ctx.nontrivial('permuted', w.n, len(t.leaves), sorted(w.kinds.values()))


def same_dist(ctx, v, d, e, what):
    if not v.numeric:
        ctx.check(np.allclose(np.asarray(d._params), np.asarray(e._params), rtol=1e-12, atol=1e-12),
                  f'{what} distribution depends on the order of rows', f'{v.name} {d._params} {e._params}')
        return
    a, b = d.cdf, e.cdf
    xs = sorted({float(i.lower) for i in list(a.intervals) + list(b.intervals) if np.isfinite(i.lower)})
    xs += [(x + y) / 2 for x, y in zip(xs, xs[1:])]
    ok = len(a.intervals) == len(b.intervals) and all(abs(a.eval(x) - b.eval(x)) < 1e-9 for x in xs)
    ctx.check(ok, f'{what} distribution depends on the order of rows', lambda: f'{v.name}\n{a}\n{b}', world=ctx.note)


# -- other processes --------------------------------------------------------------------------------
def fingerprint(seed):
    """(canonical trees, answers) of a random world"""
    gen._uid[0] = 0
    rng = np.random.default_rng(seed)
    w, t = gen.world_tree(rng)
    df = w.df()
    u = JPT(variables=infer_from_dataframe(df), min_samples_leaf=3)
    u.learn(df)
    ans = []
    for _ in range(3):
        ev, _ = gen.event(rng, w, t, gen.subset(rng, w.names, hi=2))
        q, _ = gen.event(rng, w, t, gen.subset(rng, w.names, lo=1, hi=2))
        try:
            ans.append(t.infer(q, ev))
            po = t.posterior(evidence=ev)
            ans += [float(d.expectation()) for v, d in po.items() if not v.symbolic]
            ans += [float(x) for v, d in po.items() if v.symbolic for x in d._params]
            ans.append(float(t.mpe(ev)[1]))
        except (Unsatisfiability, ValueError):
            ans.append('unsatisfiable')
    return json.loads(json.dumps([canon.tree(t), canon.tree(u), t.to_json()], default=str)), ans


def child(seeds):
    print(json.dumps([fingerprint(s) for s in seeds]))


def case_process(ctx, rng):
    seeds = [int(x) for x in rng.integers(0, 2 ** 31, 12)]
    hs = str(int(rng.integers(1, 2 ** 31)))
    env = dict(os.environ, PYTHONHASHSEED=hs)
    p = subprocess.run([sys.executable, '-c', 'from vf.main import quiet; quiet(); from vf.checks import c24; c24.child(%r)' % (seeds,)],
                       capture_output=True, env=env, timeout=400)
    ctx.check(p.returncode == 0, 'learning fails in another process', p.stderr.decode()[-500:])
    other = json.loads(p.stdout.decode().strip().split('\n')[-1])
    for s, (trees, ans) in zip(seeds, other):
        a, b = json.loads(json.dumps(fingerprint(s)))
        ctx.check(a == trees, 'learning depends on the process or its hash seed', lambda: f'seed {s}, hash seed {hs}: {diff(a, trees)}')
        ctx.count('hash seeds')
        ok = len(b) == len(ans) and all(x == y or isinstance(x, float) and isinstance(y, float) and
                                        (abs(x - y) <= 1e-9 * max(1, abs(x)) or x != x and y != y) for x, y in zip(b, ans))
        ctx.check(ok, 'answers depend on the process or its hash seed', lambda: f'seed {s}, hash seed {hs}: {b} | {ans}')
        ctx.nontrivial('process', s)


# -- threads ----------------------------------------------------------------------------------------
def case_threads(ctx, rng):
    k = int(rng.integers(2, 5))
    jobs = []
    for _ in range(k):
        w = gen.make_world(rng, n=int(rng.choice([20, 50, 100])))
        h = gen.hyper(rng, w)
        t = JPT(variables=w.variables, **h)
        t.learn(rows=w.rows())
        qs = []
        for _ in range(6):
            q, _ = gen.event(rng, w, t, gen.subset(rng, w.names, lo=1))
            ev, _ = gen.event(rng, w, t, gen.subset(rng, w.names, hi=2))
            qs.append((q, ev))
        jobs.append((w, h, t, canon.tree(t), qs))
    if rng.random() < .4:       # the same data and variables in all threads
        jobs = [jobs[0]] * k

    def ask(t, q, ev):
        try:
            return canon.canon([t.infer(q, ev), [d for d in t.posterior(evidence=ev).values()], t.expectation(evidence=ev),
                                t.mpe(ev), t.conditional_jpt(ev)])
        except (Unsatisfiability, ValueError):      # see C05
            return 'unsatisfiable'

    expected = [[ask(t, q, ev) for q, ev in qs] for _, _, t, _, qs in jobs]
    got, errors = {}, []
    barrier = threading.Barrier(2 * k)

    def learner(i):
        try:
            w, h, _, _, _ = jobs[i]
            t = JPT(variables=w.variables, **h)
            barrier.wait()
            t.learn(rows=w.rows())
            got['learn', i] = canon.tree(t)
        except BaseException as e:
            errors.append(e)

    def asker(i):
        try:
            _, _, t, _, qs = jobs[i]
            barrier.wait()
            got['ask', i] = [ask(t, q, ev) for q, ev in qs]
        except BaseException as e:
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=f, args=(i,)) for i in range(k) for f in (learner, asker)]
        for th in ts:
            th.start()
        for th in ts:
            th.join()
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errors, 'concurrent use fails', lambda: repr(errors[0]))
    for i in range(k):
        same(ctx, jobs[i][3], got['learn', i], 'learning concurrently')
        ctx.count('concurrent learners')
        ctx.check(got['ask', i] == expected[i], 'concurrent queries give other answers', lambda: diff(expected[i], got['ask', i]))
        same(ctx, jobs[i][3], canon.tree(jobs[i][2]), 'concurrent querying')
        ctx.count('concurrent queries', len(expected[i]))
    ctx.nontrivial('threads', k, [len(j[2].leaves) for j in jobs])


# -- inferred variables -----------------------------------------------------------------------------
def case_inferred(ctx, rng):
    w = gen.make_world(rng)
    df = w.df()
    for c in df.columns:
        k = w.kinds[c]
        if k == 'integer' and rng.random() < .3:
            df[c] = df[c].astype('int32')
        if k in ('numeric', 'scaled') and rng.random() < .2:
            df[c] = df[c].astype('float32')
    opt = {}
    if rng.random() < .3:
        opt['scale_numeric_types'] = bool(rng.random() < .5)
    if rng.random() < .4:
        opt['min_impurity_improvement'] = float(rng.choice([0, .01, .1, .5]))
    if rng.random() < .4:
        opt['precision'] = float(rng.choice([.001, .05, .3]))
    if rng.random() < .3:
        opt['blur'] = float(rng.choice([0, .1]))
    if rng.random() < .3:
        opt['unique_domain_names'] = bool(rng.random() < .7)
    if rng.random() < .3:
        opt['remove_nan'] = bool(rng.random() < .5)
    given = {}
    for c in df.columns:
        if rng.random() < .2:
            vals = [x.item() if hasattr(x, 'item') else x for x in df[c].unique()]
            num = all(isinstance(x, (int, float)) for x in vals)
            whole = num and all(float(x) == int(x) for x in vals) and max(vals) - min(vals) < 200
            opts = [lambda: SymbolicType(gen.uid(c), labels=vals)]
            if num and not isinstance(vals[0], bool):
                opts += [lambda: Numeric, lambda: NumericType(gen.uid(c), [float(x) for x in vals])]
            if whole and not isinstance(vals[0], bool):
                opts += [lambda: IntegerType(gen.uid(c), int(min(vals)) - 1, int(max(vals)) + 1)]
            given[c] = opts[int(rng.integers(len(opts)))]()
    if given or rng.random() < .2:
        opt['excluded_columns'] = dict(given)
    before = snapshot(df)
    vs = infer_from_dataframe(df, **opt)
    ctx.check(snapshot(df) == before and opt.get('excluded_columns', given) == given, 'inferring variables changes its arguments', '')
    ctx.check([v.name for v in vs] == list(df.columns), 'inferred variables are not the columns', str([v.name for v in vs]))
    names = [v.domain.__name__ for v in vs if v.name not in given]
    ctx.check(not opt.get('unique_domain_names') or not set(names) - {'Bool', 'Numeric'} &
              {v.domain.__name__ for v in infer_from_dataframe(df, **opt) if v.name not in given} - {'Bool', 'Numeric'},
              'domain names are not unique', str(names))
    mine = []
    for v in vs:
        c = v.name
        ctx.count('inferred variables')
        col = df[c]
        s = {}
        if opt.get('min_impurity_improvement') is not None:
            s['min_impurity_improvement'] = opt['min_impurity_improvement']
        if c in given:
            ctx.count('user-provided domains')
            ctx.check(v.domain is given[c], 'user-provided domain is not used', f'{c}: {v.domain}')
            dom = given[c]
            cls = NumericVariable if issubclass(dom, Numeric) else IntegerVariable if issubclass(dom, Integer) else SymbolicVariable
        elif col.dtype.kind == 'f':
            cls = NumericVariable
            if opt.get('scale_numeric_types', True):
                dom = NumericType(gen.uid(c), list(dict.fromkeys(float(x) for x in col)))
                for x in [float(y) for y in col[:5]] + [0., 1e3]:
                    a, b = float(v.domain.values[x]), float(dom.values[x])
                    ctx.check(abs(a - b) <= 1e-6 * (1 + abs(b)) if col.dtype == np.float32 else abs(a - b) <= 1e-9 * (1 + abs(b)),
                              'inferred domain is scaled differently', f'{c}: {a} {b}')
                if col.dtype == np.float32:
                    dom = v.domain
            else:
                dom = Numeric
                ctx.check(v.domain is Numeric, 'scaled domain inferred against the options', str(v.domain))
        elif col.dtype.kind == 'i':
            cls, dom = IntegerVariable, IntegerType(gen.uid(c), int(col.min()), int(col.max()))
            ctx.check([int(x) for x in v.domain.labels.values()] == list(range(int(col.min()), int(col.max()) + 1)),
                      'inferred range is not that of the column', f'{c}: {list(v.domain.labels.values())}')
        elif col.dtype == bool:
            cls, dom = SymbolicVariable, Bool
            ctx.check(v.domain is Bool, 'boolean column is not boolean', str(v.domain))
        else:
            cls, dom = SymbolicVariable, SymbolicType(gen.uid(c), labels=list(dict.fromkeys(w.cols[c])))
            ctx.check(set(v.domain.labels.values()) == set(w.cols[c]), 'inferred labels are not those of the column',
                      f'{c}: {list(v.domain.labels.values())}')
        if cls is NumericVariable:
            s.update({k: opt[k] for k in ('precision', 'blur') if k in opt})
        ctx.check(type(v) is cls, 'inferred variable is of the wrong kind', f'{c}: {type(v).__name__} for {dom}')
        m = cls(c, dom, **s)
        ctx.check(v.settings == m.settings, 'inferred variable has other settings', f'{c}: {v.settings} {m.settings}')
        mine.append(m)
    a = JPT(variables=vs, min_samples_leaf=int(rng.integers(1, 6)), max_depth=4)
    b = JPT(variables=mine, min_samples_leaf=a.min_samples_leaf, max_depth=4)
    a.learn(df)
    b.learn(df)
    ctx.note = {'n': w.n, 'kinds': w.kinds, 'options': str(opt), 'leaves': len(a.leaves)}
    x, y = canon.tree(a), canon.tree(b)

    def strip(t):
        t = json.loads(json.dumps(t))
        del t['vars'], t['mindist']
        for l in t['leaves']:
            l[7] = [[n, d[1:]] for n, d in l[7]]
        t['priors'] = [[n, d[1:]] for n, d in t['priors']]
        return t
    same(ctx, strip(y), strip(x), 'learning with inferred variables')
    if len(a.leaves) > 1:
        ctx.nontrivial('inferred', w.n, str(sorted(opt)), len(a.leaves))
    # other kinds of columns
    try:
        infer_from_dataframe(pd.DataFrame({'t': pd.date_range('2020-01-01', periods=3)}))
        ctx.check(False, 'illegal column accepted', 'dates')
    except TypeError:
        pass


# -- illegal data -----------------------------------------------------------------------------------
def case_illegal(ctx, rng):
    w = gen.make_world(rng, n=int(rng.choice([5, 10, 20])), nvars=int(rng.integers(1, 5)))
    t = JPT(variables=w.variables, min_samples_leaf=2)
    rows, df = w.rows(), w.df()
    t.learn(rows=rows)
    A = canon.tree(t)

    def reject(f, what, exc=(ValueError, TypeError, KeyError)):
        ctx.count('rejected data')
        try:
            f()
        except exc:
            return
        except Exception as e:
            ctx.check(False, f'{what} fails otherwise', repr(e))
        ctx.check(False, f'{what} is accepted', str(ctx.note))

    ctx.note = gen.describe(w, t)
    reject(lambda: t.learn(), 'no data')
    reject(lambda: t.learn(data=df, rows=rows), 'data and rows')
    reject(lambda: t.learn(rows=rows, columns=w.columns()), 'rows and columns')
    reject(lambda: t.learn(rows=[]), 'an empty list')
    reject(lambda: t.learn(columns=[]), 'an empty list of columns')
    reject(lambda: t.learn(df.iloc[:0]), 'an empty data frame')
    reject(lambda: t.learn(df.rename(columns={w.names[0]: 'unknown'})), 'an unknown column')
    reject(lambda: t.learn(df.assign(more=0)), 'an additional column')
    if len(w.names) > 1:
        reject(lambda: t.learn(df[w.names[1:]]), 'a missing column')
        reject(lambda: t.learn(df[w.names[::-1]]), 'another order of columns')
    sym = [i for i, v in enumerate(w.variables) if not v.numeric]
    for i in sym:
        v = w.variables[i]
        bad = [list(r) for r in rows]
        k = int(rng.integers(w.n))
        bad[k][i] = 'no such label' if v.symbolic else max(ref.labels_of(v)) + 1
        reject(lambda: t.learn(rows=bad), f'an unknown {"label" if v.symbolic else "integer"}')
        d = df.astype(object)
        d.iloc[k, i] = bad[k][i]
        reject(lambda: t.learn(d), f'an unknown {"label" if v.symbolic else "integer"} in a data frame')
        if v.symbolic:
            break
    same(ctx, A, canon.tree(t), 'rejected learning')
    ctx.nontrivial('illegal', w.n, sorted(w.kinds.values()))


def case(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < .42:
        case_formats(ctx, rng)
    elif r < .74:
        case_permuted(ctx, rng)
    elif r < .76:
        case_process(ctx, rng)
    elif r < .82:
        case_threads(ctx, rng)
    elif r < .95:
        case_inferred(ctx, rng)
    else:
        case_illegal(ctx, rng)
