"""Persistence round trips preserve the model."""
import copy
import io
import json
import os
import pickle
import tempfile

import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.functions import (ConstantFunction, LinearFunction, PiecewiseFunction, QuadraticFunction, Undefined)
from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.distributions import Distribution, Numeric, Bool
from jpt.distributions.quantile.quantiles import QuantileDistribution
from jpt.trees import JPT, Leaf
from jpt.variables import (Variable, VariableMap, LabelAssignment, ValueAssignment, NumericVariable, SymbolicVariable,
                           IntegerVariable)

from vf import dists, gen, ref
from vf.canon import canon, domain
from vf.core import Skip

PROPERTY = 'C18'
RULE = ('Trees after random histories (learning, conditioning, pruning, post-processing, storing), distributions, '
        'variables, types, assignments, intervals and functions are stored and restored in every offered way (JSON text, '
        'pickle protocols, save/load with paths and streams, copy, copy.copy, deepcopy). The complete canonical state '
        '(floats bit by bit) before, after and of the restored object, == in both directions and answers to queries are '
        'compared. Non-trivial: a tree with at least two leaves, or another object with content.')
CASES = {'quick': 1500, 'thorough': 40000}
REQUIRED = ['trees stored', 'conditioned trees stored', 'pruned trees stored', 'restored trees stored',
            'post-processed trees stored', 'unlearned trees stored', 'files written', 'answers compared',
            'restored trees learned', 'trees modified after they were stored', 'json', 'pickle', 'copy', 'deepcopy', 'intervals', 'functions', 'distributions',
            'variables', 'types', 'assignments', 'quantiles', 'leaf copies']
ASSUMPTIONS = ['pickling instances of dynamically created distribution types may be rejected (PicklingError), since '
               'their classes cannot be imported']


def through_json(x):
    return json.loads(json.dumps(x))


# -- trees --------------------------------------------------------------------------------------------
def full(t):
    c = canon(t)
    c['deps'] = [[v.name, [d.name for d in ds]] for v, ds in t.dependencies.items()]
    return c


def restore(ctx, t, how):
    if how == 'json':
        ctx.count('json')
        return JPT.from_json(through_json(t.to_json()))
    if how == 'dict':
        return JPT.from_json(t.to_json())
    if how == 'own variables':
        return JPT.from_json(through_json(t.to_json()), variables=t.variables)
    if how == 'pickle':
        ctx.count('pickle')
        return pickle.loads(pickle.dumps(t, protocol=int(ctx.rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))))
    if how == 'copy':
        ctx.count('copy')
        return t.copy()
    if how == 'copy.copy':
        return copy.copy(t)
    if how == 'deepcopy':
        ctx.count('deepcopy')
        return copy.deepcopy(t)
    proto = 'json' if 'json' in how else 'pickle'
    if 'stream' in how:
        f = io.StringIO() if proto == 'json' else io.BytesIO()
        t.save(f, protocol=proto)
        f.seek(0)
        return JPT.load(f, protocol=proto)
    ctx.count('files written')
    with tempfile.TemporaryDirectory(prefix='vf-c18-') as tmp:
        p = os.path.join(tmp, f'tree.{proto}')
        if how == 'pickle()':
            t.pickle(p)
        elif how == 'save default':
            t.save(p)
        else:
            t.save(p, protocol=proto)
        return JPT.load(p) if how in ('save default', 'pickle()') else JPT.load(p, protocol=proto)


WAYS = ['json', 'dict', 'own variables', 'pickle', 'copy', 'copy.copy', 'deepcopy', 'stream json', 'stream pickle',
        'file json', 'file pickle', 'save default', 'pickle()']


def outcome(f):
    try:
        return canon(f())
    except Exception as e:
        return ['raised', type(e).__name__]


def answers(t, w, qs, X, rows):
    r = []
    for q, e in qs:
        r.append(outcome(lambda: t.infer(q, e, fail_on_unsatisfiability=False)))
        r.append(outcome(lambda: t.posterior(evidence=e, fail_on_unsatisfiability=False)))
        r.append(outcome(lambda: t.expectation(evidence=e, fail_on_unsatisfiability=False)))
        r.append(outcome(lambda: [[list(a.items()) if a is not None else None for a in m] if isinstance(m, list) else m
                                  for m in t.mpe(e, fail_on_unsatisfiability=False)]))
        r.append(outcome(lambda: t.conditional_jpt(t.bind(e), fail_on_unsatisfiability=False)))
    r.append(outcome(lambda: t.likelihood(rows)))
    r.append(outcome(lambda: t.encode(rows)))
    r.append(outcome(lambda: t.number_of_parameters()))
    r.append(outcome(lambda: t.get_hyperparameters_dict()))
    r.append(outcome(lambda: t.pfmt()))
    r.append(outcome(lambda: [str(n) for n in t.allnodes.values()]))
    return r


def links(ctx, t, what):
    """the parts of a tree refer to the tree they belong to and not to the original"""
    for n in t.allnodes.values():
        if n.parent is not None:
            ctx.check(t.innernodes.get(n.parent.idx) is n.parent and any(c is n for c in n.parent.children),
                      'restored nodes are linked wrongly', f'{what}: {n}')
    for n in t.innernodes.values():
        ctx.check(t.varnames[n.variable.name] is n.variable, 'restored node has a foreign variable', f'{what}: {n}')
    for l in t.leaves.values():
        for v, d in l.distributions.items():
            ctx.check(t.varnames[v.name] is v, 'restored leaf has a foreign variable', f'{what}: {l}')
            ctx.check(type(d) is v.domain or type(d).equiv(v.domain) or v.domain.equiv(type(d)),
                      'restored distribution has a foreign type', f'{what}: {l} {v.name}')
    for v in list(t.targets) + list(t.features):
        ctx.check(t.varnames[v.name] is v, 'restored target or feature is a foreign variable', f'{what}: {v.name}')


def ids(t):
    return {id(n) for n in t.allnodes.values()} | {id(d) for l in t.leaves.values() for d in l.distributions.values()} | {
        id(d) for d in t.priors.values()} | {id(t.leaves), id(t.innernodes), id(t.priors)}


def trees(ctx):
    rng = ctx.rng
    w = gen.make_world(rng, min_imp=True)
    h = gen.hyper(rng, w)
    if rng.random() < .2:
        h['max_leaves'] = int(rng.integers(2, 6))
    t = JPT(variables=w.variables, **h)
    w.h = {k: (v if not isinstance(v, list) else [x.name for x in v]) for k, v in h.items()}
    ops = []
    if rng.random() < .1:
        ctx.count('unlearned trees stored')
        ops.append('unlearned')
    else:
        t.learn(w.df(), close_convex_gaps=bool(rng.random() < .6), keep_samples=bool(rng.random() < .5))
        for _ in range(int(rng.integers(0, 4))):
            op = str(rng.choice(['condition', 'prune', 'restore', 'postprocess']))
            if op == 'condition':
                e, _ = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2), point=rng.random() < .2)
                try:
                    c = t.conditional_jpt(t.bind(e), fail_on_unsatisfiability=False)
                except Unsatisfiability:
                    raise Skip('masses at the level of rounding errors')
                if c is None:
                    continue
                t = c
            elif op == 'prune':
                if any(n.children is None for n in t.innernodes.values()):
                    continue
                t = t.prune(float(rng.choice([0., .2, .5, .8])), float(.1) if rng.random() < .2 else None)
            elif op == 'postprocess':
                if any(o != 'restore' for o in ops):
                    continue
                t.postprocess_leaves()
            else:
                t = restore(ctx, t, str(rng.choice(WAYS)))
            ops.append(op)
        ctx.count('trees stored')
        for o, c in (('condition', 'conditioned'), ('prune', 'pruned'), ('restore', 'restored'),
                     ('postprocess', 'post-processed')):
            if o in ops:
                ctx.count(c + ' trees stored')
    ctx.note = dict(gen.describe(w, t if t.root is not None else None), ops=ops)
    if rng.random() < .3:   # what was stored before a tree was modified in place must not come back
        for how in rng.choice(WAYS, size=2):
            restore(ctx, t, str(how))
        if t.root is None:
            t.max_depth = h['max_depth'] = int(rng.integers(1, 4))
        elif rng.random() < .8:
            t.multiply_by_leaf_prior({i: float(rng.uniform(.2, 2)) for i in t.leaves})
        else:
            for l in t.leaves.values():
                v = t.variables[int(rng.integers(len(t.variables)))]
                l.distributions[v] = next(iter(t.leaves.values())).distributions[v].copy()
        ops.append('modified')
        ctx.count('trees modified after they were stored')
    before = full(t)
    own = ids(t)
    if t.root is not None:
        rows = w.df().iloc[:10]
        qs = []
        for _ in range(2):
            q, _ = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
            e, _ = gen.event(rng, w, t, gen.subset(rng, w.names, 0, 2))
            qs.append((q, e))
        ref_answers = answers(t, w, qs, None, rows)
    ways = list(rng.choice(WAYS, size=3, replace=False))
    for how in ways:
        how = str(how)
        r = restore(ctx, t, how)
        after = full(t)
        for k in before:
            ctx.check(after[k] == before[k], 'storing changes the tree', lambda: f'{how} {ops}: {k}: {before[k]} -> {after[k]}')
        got = full(r)
        for k in before:
            ctx.check(got[k] == before[k], f'restored tree differs: {k}',
                      lambda: f'{how} {ops}: {diff(before[k], got[k])}')
        ctx.check(type(r) is JPT, 'restored tree has another type', str(type(r)))
        ctx.check(r == t and t == r, 'restored tree is not equal', f'{how} {ops}')
        links(ctx, r, f'{how} {ops}')
        if t.root is None:
            ctx.check(r.root is None, 'restored tree differs: root', how)
            a = learned(JPT(variables=w.variables, **h), w)
            b = learned(r, w)
            ctx.count('restored trees learned')
            ctx.check(a == b, 'restored tree learns another model', lambda: f'{how}: {diff(a, b)}')
            continue
        ctx.check(r.root is r.allnodes[r.root.idx], 'restored root is not a node of the tree', how)
        if how not in ('copy.copy',):
            ctx.check(not (own & ids(r)), 'restored tree shares parts with the original', f'{how} {ops}')
        got = answers(r, w, qs, None, rows)
        for k, (a, b) in enumerate(zip(ref_answers, got)):
            ctx.count('answers compared')
            ctx.check(near(a, b), 'restored tree gives another answer', lambda: f'{how} {ops}: #{k}: {diff(a, b, near)}')
    if t.root is not None:
        l = list(t.leaves.values())[int(rng.integers(len(t.leaves)))]
        c = l.copy()
        ctx.count('leaf copies')
        ctx.check(canon([[v.name, d] for v, d in c.distributions.items()]) ==
                  canon([[v.name, d] for v, d in l.distributions.items()]) and c.prior == l.prior and c.idx == l.idx,
                  'copied leaf differs', lambda: f'{l} -> {c}')
        if len(t.leaves) > 1:
            ctx.nontrivial('tree', tuple(sorted(set(ops))), tuple(ways))


def learned(t, w):
    t.learn(w.df())
    return full(t)


def near(a, b):
    """equal up to rounding: the density of a restored distribution is derived from its CDF"""
    if isinstance(a, list) and isinstance(b, list):
        if a[:1] == ['F'] == b[:1]:
            return near_functions(a[1:], b[1:])
        if a[:1] == ['S'] == b[:1] and any(x in b[1:] for x in a[1:]):
            return True     # ties are decided by rounding errors
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(near(a[k], b[k]) for k in a)
    if a == b:
        return True
    try:
        return isinstance(a, str) and abs(float(a) - float(b)) <= 1e-12 + 1e-8 * max(abs(float(a)), abs(float(b)))
    except (TypeError, ValueError):
        return False


def near_functions(a, b):
    """segments may vanish by rounding"""
    ends = sorted({float(x) for f in (a, b) for (_, lo, hi, _, _), _ in f for x in (lo, hi) if np.isfinite(float(x))})

    def at(f, x):
        for (_, lo, hi, _, _), g in f:
            if float(lo) <= x <= float(hi):
                return float(g) if isinstance(g, str) else sum(float(c) * x ** k for k, c in enumerate(reversed(g)))
        return np.nan
    for x, y in zip(ends, ends[1:]):
        if y - x > 1e-9 * max(1, abs(x)):
            m = (x + y) / 2
            u, v = at(a, m), at(b, m)
            if not (u == v or abs(u - v) <= 1e-9 or (u != u and v != v)):
                return False
    return True


def diff(a, b, eq=lambda x, y: x == y):
    """first difference"""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not eq(x, y):
                return f'[{i}] {diff(x, y, eq)}'
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if not eq(a[k], b.get(k)):
                return f'[{k}] {diff(a[k], b.get(k), eq)}'
    return f'{str(a)[:300]} != {str(b)[:300]}'


# -- pieces -------------------------------------------------------------------------------------------
def interval(rng):
    a, b = sorted(float(x) for x in rng.choice([-np.inf, -3., -1e-300, 0., 1 / 3, 1., 2.5, 1e17, np.inf], 2))
    lc, hc = bool(rng.random() < .5), bool(rng.random() < .5)
    if np.isinf(a):
        lc = False
    if np.isinf(b):
        hc = False
    return ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC)


def function(rng, quad=True):
    p = [float(x) for x in rng.choice([0., 1., -1 / 3, 1e-300, 7.7, -1e12, np.inf], 3)]
    r = int(rng.integers(0, 4 if quad else 2))
    return [lambda: ConstantFunction(p[0]), lambda: LinearFunction(p[0], p[1]),
            lambda: QuadraticFunction(p[0], p[1], p[2]), Undefined][r]()


def piecewise(rng):
    f = PiecewiseFunction()
    pts = dists.steps(rng, int(rng.integers(2, 6)))
    f.intervals = [ContinuousSet(float(a), float(b), INC, EXC) for a, b in zip(pts, pts[1:])]
    f.functions = [function(rng) for _ in f.intervals]
    return f


def same(ctx, kind, how, a, b, c=None, eq=True):
    ctx.check(type(b) is type(a), f'{kind}: restored object has another type', f'{how}: {type(a)} -> {type(b)}')
    ca, cb = c(a) if c else canon(a), c(b) if c else canon(b)
    ctx.check(ca == cb, f'{kind}: restored object differs', lambda: f'{how}: {diff(ca, cb)}')
    if eq:
        ctx.check(bool(a == b) and bool(b == a), f'{kind}: restored object is not equal', lambda: f'{how}: {ca}')


def cfun(f):
    if isinstance(f, PiecewiseFunction):
        return canon(f)
    from vf.canon import fun
    return [type(f).__name__, fun(f)]


def cquant(q):
    return [canon(q.cdf), canon(q.epsilon), canon(q.min_samples_mars)]


def pieces(ctx, x, kind, c=None, js=None, reject=(), pick=True, eq=True):
    """all ways of storing x"""
    ctx.count(kind)
    ca = c(x) if c else canon(x)
    ways = [('copy.copy', lambda: copy.copy(x)), ('deepcopy', lambda: copy.deepcopy(x))]
    if hasattr(x, 'copy'):
        ways.append(('copy', lambda: x.copy()))
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        ways.append((f'pickle {p}', lambda p=p: pickle.loads(pickle.dumps(x, protocol=p))))
    ways.append(('json', lambda: (js or type(x).from_json)(through_json(x.to_json()))))
    for how, f in ways:
        ctx.count(how.split()[0])
        try:
            y = f()
        except reject:
            if how.startswith('pickle'):
                ctx.count('rejected pickles')
                continue
            raise
        same(ctx, kind, how, x, y, c, eq)
        cx = c(x) if c else canon(x)
        ctx.check(cx == ca, f'{kind}: storing changes the object', lambda: f'{how}: {diff(ca, cx)}')
        # restored objects can be stored again
        if how.startswith('pickle 4') or how == 'deepcopy':
            same(ctx, kind, how + ' twice', x, (js or type(x).from_json)(through_json(y.to_json())), c, eq)
    ctx.nontrivial(kind, type(x).__name__)


def variable(rng, kind, dom=None):
    mi = float(rng.choice([.01, .3])) if rng.random() < .5 else None
    if kind == 'numeric':
        T = dom or dists.numeric_type(rng)[0]
        kw = {}
        if rng.random() < .5:
            kw['blur'] = float(rng.choice([.1, .5]))
        if rng.random() < .5:
            kw['max_std'] = float(rng.choice([.1, 2.]))
        if rng.random() < .5:
            kw['precision'] = float(rng.choice([.001, .2]))
        return NumericVariable(gen.uid('v'), T, min_impurity_improvement=mi, **kw)
    T = dom or dists.domain(rng, kind)
    if kind == 'integer':
        return IntegerVariable(gen.uid('v'), T, min_impurity_improvement=mi)
    return SymbolicVariable(gen.uid('v'), T, min_impurity_improvement=mi,
                            invert_impurity=True if rng.random() < .4 else None)


def cvar(v):
    return [type(v).__name__, canon(v), domain(v)]


def cmap(m):
    return [type(m).__name__, [[cvar(v), canon(x)] for v, x in m.items()]]


def other(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < .15:
        if rng.random() < .5:
            pieces(ctx, interval(rng), 'intervals', eq=True)
        else:
            pieces(ctx, RealSet([interval(rng) for _ in range(int(rng.integers(0, 4)))]), 'intervals')
    elif r < .3:
        f = function(rng) if rng.random() < .5 else piecewise(rng)
        pieces(ctx, f, 'functions', cfun)
    elif r < .55:
        if rng.random() < .6:
            d = dists.numeric(rng)
            pieces(ctx, d, 'distributions', reject=pickle.PicklingError)
            pieces(ctx, d._quantile, 'quantiles', cquant)
            e = pickle.loads(pickle.dumps(d)) if type(d) is Numeric else copy.deepcopy(d)
            for x in dists.points(rng, ref.PL(d.cdf), 3):
                ctx.check(canon(d._p(ContinuousSet(-np.inf, x, EXC, INC))) == canon(e._p(ContinuousSet(-np.inf, x, EXC, INC)))
                          and near(canon(d.pdf.eval(x)), canon(e.pdf.eval(x))), 'distributions: another answer', lambda: f'{x}')
            ctx.check(canon(d._expectation()) == canon(e._expectation()), 'distributions: another answer', 'expectation')
        else:
            d, p, labs = dists.discrete(rng)
            pieces(ctx, d, 'distributions', reject=pickle.PicklingError)
            e = copy.deepcopy(d)
            for l in labs:
                ctx.check(e.p(l) == d.p(l), 'distributions: another answer', lambda: f'{l}')
            # the parameters of the copies are their own
            c = d.copy()
            before = canon(d)
            c.set([1.] + [0.] * (len(labs) - 1))
            ctx.check(canon(d) == before, 'distributions: copy shares parameters', '')
    elif r < .8:
        kind = str(rng.choice(['numeric', 'symbolic', 'integer', 'bool']))
        v = variable(rng, kind)
        pieces(ctx, v, 'variables', cvar, js=Variable.from_json)
        y = pickle.loads(pickle.dumps(v))
        ctx.check(hash(y) == hash(v) and y in {v: 1}, 'variables: restored variable has another hash', v.name)
        T = v.domain
        U = Distribution.from_json(through_json(T.to_json()))
        ctx.count('types')
        ctx.check(T.equiv(U) and U.equiv(T), 'types: restored type is not equivalent', T.__name__)
        ctx.check(T.hash() == U.hash() if T is not Bool else True, 'types: restored type has another hash', T.__name__)
        if kind != 'numeric':
            d, p, labs = dists.discrete_of(rng, T), None, dists.labels(T)
            d = d[0]
            e = U.from_json(through_json(d.to_json()))
            for l in labs:
                ctx.check(e.p(l) == d.p(l), 'types: distribution of a restored type answers differently', f'{l}')
        else:
            for x in (0., 1.5, -1e9, 3e-7):
                ctx.check(float(U.values[x]) == float(T.values[x]) and float(U.labels[x]) == float(T.labels[x]),
                          'types: restored scaling differs', f'{x}')
    else:
        kinds = [str(k) for k in rng.choice(['numeric', 'symbolic', 'integer', 'bool'], int(rng.integers(1, 5)))]
        vs = [variable(rng, k) for k in kinds]
        items = []
        for v, k in zip(vs, kinds):
            if rng.random() < .2:
                continue
            if k == 'numeric':
                i = interval(rng)
                z = rng.random()
                items.append((v, i if z < .4 else RealSet([i, ContinuousSet(1e18, 1e19)]) if z < .7 else
                              float(rng.normal())))
            else:
                labs = ref.labels_of(v)
                sub = [labs[i] for i in rng.choice(len(labs), int(rng.integers(1, len(labs) + 1)), replace=False)]
                items.append((v, set(sub) if len(sub) > 1 or rng.random() < .5 else sub[0]))
        a = LabelAssignment(items)
        pieces(ctx, a, 'assignments', cmap, js=lambda d: LabelAssignment.from_json(vs, d))
        b = a.value_assignment()
        pieces(ctx, b, 'assignments', cmap, js=lambda d: ValueAssignment.from_json(vs, d))
        m = VariableMap([(v, float(i)) for i, v in enumerate(vs)])
        pieces(ctx, m, 'assignments', cmap, js=lambda d: VariableMap.from_json(vs, d))
        c = b.copy(deep=True)
        same(ctx, 'assignments', 'deep copy', b, c, cmap)
        for v, x in b.items():
            if isinstance(x, (set, RealSet, ContinuousSet)):
                ctx.check(c[v] is not x, 'assignments: deep copy shares values', v.name)


def case(ctx):
    if ctx.rng.random() < .5:
        trees(ctx)
    else:
        for _ in range(3):
            other(ctx)
