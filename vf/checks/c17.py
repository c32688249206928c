"""Labels and internal values are in bijection, whatever the binding."""
import copy
import json

import numpy as np
import pandas as pd

from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
from jpt.distributions import Bool, IntegerType, Numeric, NumericType, SymbolicType
from jpt.distributions.utils import DataScaler, DataScalerProxy, Identity
from jpt.trees import JPT
from jpt.variables import (LabelAssignment, ValueAssignment, NumericVariable, SymbolicVariable, IntegerVariable,
                           infer_from_dataframe)

from vf import dists, gen, ref

PROPERTY = 'C17'
RULE = ('Random domains of every type (scaled and plain numeric, symbolic with labels of several kinds, boolean, integer): '
        'scalars, containers, intervals with all kinds of ends, unions and whole assignments are converted back and forth '
        'against the declared affine map or table; label-level and value-level entry points of distributions and trees '
        'are called on corresponding arguments; bind() is given the same assignment in all its spellings. '
        'Non-trivial: scaled domains or at least two labels.')
CASES = {'quick': 20000, 'thorough': 300000}
REQUIRED = ['numeric scalars', 'intervals', 'unions', 'unbounded intervals', 'discrete labels', 'rejected labels', 'assignments',
            'distribution entry points', 'bindings', 'value bindings', 'rejected bindings', 'blurred evidence', 'tree entry points',
            'equivalence', 'inferred variables', 'scalers']
ASSUMPTIONS = ['the affine map of a scaled domain is given by mean and standard deviation of the values it was declared with']


def num_domain(ctx, rng):
    r = rng.random()
    x = gen.numeric_column(rng, rng.integers(0, 3, int(rng.choice([1, 2, 5, 40]))))
    if r < .75:
        T = NumericType(gen.uid('N'), x)
        s = float(np.std(x))
        if s < 1e-9 * max(1e-12, np.abs(x).max()):
            if s:       # standard deviations at the level of rounding errors
                return Numeric, x, 0., 1.
            s = 1.
        return T, x, float(np.mean(x)), s
    return Numeric, x, 0., 1.


def rand_interval(ctx, rng, x):
    span = float(np.ptp(x)) or 1.
    a, b = sorted(float(v) for v in rng.uniform(x.min() - span, x.max() + span, 2))
    if rng.random() < .3:
        a = b = float(rng.choice(x))
        return ContinuousSet(a, b)
    l, r = [INC if rng.random() < .5 else EXC for _ in range(2)]
    if rng.random() < .15:
        a, l = -np.inf, EXC
        ctx.count('unbounded intervals')
    if rng.random() < .15:
        b, r = np.inf, EXC
    return ContinuousSet(a, b, l, r)


def raw(i):
    return i.lower, i.upper, int(i.left), int(i.right)


def same_interval(ctx, got, want, mech, sc):
    g, w = raw(got), raw(want)
    for a, b in zip(g[:2], w[:2]):
        ctx.check(a == b or abs(a - b) <= sc, mech, lambda: f'{got} instead of {want}')
    ctx.check(g[2:] == w[2:], mech + ' (ends)', lambda: f'{got} instead of {want}')


def numerics(ctx, rng):
    T, x, m, s = num_domain(ctx, rng)
    big = float(np.abs(x).max()) + abs(m) + s
    ctx.note = {'mean': m, 'scale': s}
    sl, sv = 1e-12 * big, 1e-12 * big / s
    if T is not Numeric:
        ctx.nontrivial('scaled', round(m, 9), round(s, 9))
    for v in [float(rng.choice(x)), float(rng.normal(m, 5 * s)), np.float64(rng.choice(x)), 0, int(np.round(m)), -np.inf, np.inf]:
        ctx.count('numeric scalars')
        val = T.label2value(v)
        if np.isinf(v):
            ctx.check(val == v and T.value2label(v) == v, 'infinity is not preserved', str(v))
            continue
        ctx.close(val, (v - m) / s, 'label2value is not the affine map', lambda: str(v), abs_=sv)
        ctx.close(T.value2label(val), v, 'value2label does not invert label2value', lambda: str(v), abs_=sl + 1e-12 * abs(v))
        ctx.close(T.value2label(v), v * s + m, 'value2label is not the affine map', lambda: str(v), abs_=sl + 1e-12 * abs(v * s))
    ivs = [rand_interval(ctx, rng, x) for _ in range(3)]
    for i in ivs:
        ctx.count('intervals')
        before = raw(i)
        v = T.label2value(i)
        ctx.check(raw(i) == before, 'label2value changes its argument', '')
        same_interval(ctx, v, ContinuousSet((i.lower - m) / s, (i.upper - m) / s, i.left, i.right),
                      'label2value of an interval', sv)
        same_interval(ctx, T.value2label(v), i, 'value2label does not invert label2value of an interval', sl)
        ctx.check(v is not i and T.value2label(v) is not v, 'conversion returns its argument', '')
    u = RealSet([copy.copy(i) for i in ivs]) if hasattr(ivs[0], '__copy__') else RealSet([i.copy() for i in ivs])
    ctx.count('unions')
    v = T.label2value(u)
    for a, b in zip(v.intervals, u.intervals):
        same_interval(ctx, a, ContinuousSet((b.lower - m) / s, (b.upper - m) / s, b.left, b.right), 'label2value of a union', sv)
    for a, b in zip(T.value2label(v).intervals, u.intervals):
        same_interval(ctx, a, b, 'value2label does not invert label2value of a union', sl)
    ctx.check(len(v.intervals) == len(u.intervals), 'label2value of a union loses intervals', '')
    for bad in ('a', {1.}, None):
        for f in (T.label2value, T.value2label):
            ctx.count('rejected labels')
            try:
                r = f(bad)
            except TypeError:
                continue
            ctx.check(False, 'conversion of an illegal type', f'{bad}: {r}')
    # entry points of distributions
    if T is Numeric or np.ptp(x) == 0:
        return
    ref.SCALING[T] = (m, s)
    d = dists.numeric(rng, T, x, depth=1)
    pl = ref.PL(d.cdf)
    ctx.count('distribution entry points')
    for i in ivs + [u, float(rng.choice(x))]:
        ctx.close(d.p(i), d._p(T.label2value(i)), 'p and _p disagree', lambda: str(i), abs_=1e-12)
    e = d.expectation()
    ctx.close(e, d._expectation() * s + m, 'expectation and _expectation disagree', '', abs_=1e-8 * big)
    ctx.close(d.variance(), d._variance() * s * s, 'variance and _variance disagree', '', abs_=1e-8 * big * big)
    for (a, pa), (b, pb) in zip([d.mpe()] + list(d.k_mpe(2)), [d._mpe()] + list(d._k_mpe(2))):
        for i, j in zip(getattr(a, 'intervals', [a]), getattr(T.value2label(b), 'intervals', [T.value2label(b)])):
            same_interval(ctx, i, j, 'mpe and _mpe disagree', sl)
    restr = T.value2label(dists.restriction(rng, pl, point=0)[1])
    val = T.label2value(restr)
    if pl.p(ref.from_numberset(val)) > 1e-3:
        ctx.check(d.crop(restr) == d._crop(val), 'crop and _crop disagree', lambda: str(restr))
    np.random.seed(7)
    a = list(d.sample(5))
    np.random.seed(7)
    b = [T.value2label(y) for y in d._sample(5)]
    ctx.check(np.allclose(a, b, rtol=1e-9, atol=sl), 'sample and _sample disagree', lambda: f'{a}, {b}')
    data = np.asarray(x, dtype=np.float64).reshape(-1, 1)


def scalers(ctx, rng):
    """DataScaler: scalars, arrays (copied or in place), JSON, equality"""
    x = gen.numeric_column(rng, rng.integers(0, 3, int(rng.choice([1, 2, 5, 40]))))
    keep = x.copy()
    sc = DataScaler(x) if rng.random() < .5 else DataScaler()
    if sc.mean is None:
        sc.fit(x.reshape(-1, 1) if rng.random() < .5 else x)
    ctx.check(np.array_equal(x, keep), 'fitting a scaler changes the data', '')
    m, s = float(np.mean(x)), float(np.std(x))
    big = float(np.abs(x).max())
    if s < 1e-9 * max(1e-12, big):
        if s:
            return
        s = 1.
    tol = 1e-9 * (big + s)
    ctx.close(float(sc.mean), m, 'mean of a scaler', '', abs_=tol)
    ctx.close(float(sc.scale), s, 'scale of a scaler', '', abs_=tol)
    y = (x - m) / s
    rnd = sc if rng.random() < .5 else DataScaler.from_json(json.loads(json.dumps(sc.to_json())))
    ctx.check(rnd == sc and not rnd != sc, 'a restored scaler is another one', lambda: f'{rnd} {sc}')
    other = DataScaler.from_json(sc.to_json())
    if rng.random() < .5:
        other.mean = sc.mean + 1
    else:
        other.scale = sc.scale * 2
    ctx.check(not other == sc, 'different scalers are equal', lambda: f'{other} {sc}')
    P, Q = DataScalerProxy(rnd), DataScalerProxy(rnd, inverse=True)
    for f, arg, want in ((rnd.transform, x, y), (rnd.inverse_transform, y, x), (P.transform, x, y)):
        got = f(arg.copy())
        ctx.check(np.all(np.abs(got - want) <= tol / min(s, 1)), 'scaling of an array', lambda: f'{f.__name__}: {got} instead of {want}')
        a = arg.copy()
        f(a)
        ctx.check(np.array_equal(a, arg), 'scaling changes its argument', f.__name__)
        if f != P.transform:
            got = f(a, make_copy=False)
            ctx.check(got is a and np.all(np.abs(a - want) <= tol / min(s, 1)), 'scaling in place', lambda: f'{f.__name__}: {a} instead of {want}')
        i = int(rng.integers(len(x)))
        ctx.close(float(f(float(arg[i]))), float(want[i]), 'scaling of a scalar', '', abs_=tol / min(s, 1))
    i = int(rng.integers(len(x)))
    for f, arg, want in ((P, x, y), (Q, y, x), (P.transformer(), x, y), (Q.transformer(), y, x), (P.__getitem__, x, y), (Q.__getitem__, y, x), (rnd.__getitem__, y, x)):
        ctx.close(float(f(float(arg[i]))), float(want[i]), 'scaling of a scalar', '', abs_=tol / min(s, 1))
        for e in (np.inf, -np.inf):
            ctx.check(f(e) == e, 'scaling of infinity', '')
    ctx.check(DataScalerProxy(rnd) == P and hash(DataScalerProxy(sc)) == hash(P) and P != Q and P != Identity() and Identity() == Identity(), 'equality of mappings', '')
    ctx.count('scalers')
    if s != 1:
        ctx.nontrivial('scaler', m, s)


def discretes(ctx, rng):
    kind = str(rng.choice(['symbolic', 'integer', 'bool'], p=[.5, .4, .1]))
    T = dists.domain(rng, kind)
    labs = dists.labels(T)
    ctx.note = {'labels': labs}
    if len(labs) > 1:
        ctx.nontrivial(kind, repr(labs))
    ctx.check(list(T.labels.values()) == labs and list(T.labels.keys()) == list(range(len(labs))), 'labels of the domain', '')
    ctx.check(list(T.values.keys()) == labs and list(T.values.values()) == list(range(len(labs))), 'values of the domain', '')
    for v, lab in enumerate(labs):
        ctx.count('discrete labels')
        ctx.check(T.label2value(lab) == v and type(T.label2value(lab)) is int, 'label2value', f'{lab}: {T.label2value(lab)!r}')
        ctx.check(T.value2label(v) == lab and type(T.value2label(v)) is type(lab), 'value2label', f'{v}: {T.value2label(v)!r}')
        ctx.check(T.value2label(np.int64(v)) == lab, 'value2label of a numpy integer', str(v))
        ctx.check(T.values[lab] == v and T.labels[v] == lab and T.values.transformer()(lab) == v, 'tables of the domain', '')
    for _ in range(3):
        sub = [int(i) for i in rng.permutation(len(labs))[:int(rng.integers(0, len(labs) + 1))]]
        for c in (list, set, tuple):
            lab, val = c(labs[i] for i in sub), c(sub)
            keep = c(lab)
            got = T.label2value(lab)
            ctx.check(got == val and type(got) is c, 'label2value of a container', lambda: f'{lab}: {got}')
            back = T.value2label(got)
            ctx.check(back == lab and type(back) is c and lab == keep, 'value2label of a container', lambda: f'{got}: {back}')
    for bad, f in ((len(labs), T.value2label), (-1, T.value2label), ([0, len(labs)], T.value2label), ('?!', T.label2value),
                   (1000, T.label2value), ({labs[0], 1000}, T.label2value), ([labs[0], '?!'], T.label2value)):
        ctx.count('rejected labels')
        try:
            r = f(bad)
        except (ValueError, TypeError):     # integer domains take a string for a container
            continue
        ctx.check(False, 'label or value outside of the domain is converted', f'{bad}: {r}')
    d, tab, _ = dists.discrete_of(rng, T)
    ctx.count('distribution entry points')
    ctx.check({T.value2label(v) for v in d._mpe()[0]} == d.mpe()[0], 'mpe and _mpe disagree', '')
    lsets = [({T.value2label(v) for v in vs}, p) for vs, p in d._k_mpe(3)]
    ctx.check(lsets == [(set(x), p) for x, p in d.k_mpe(3)], 'k_mpe and _k_mpe disagree', lambda: f'{d.k_mpe(3)}, {lsets}')
    sub = {labs[int(i)] for i in rng.permutation(len(labs))[:int(rng.integers(1, len(labs) + 1))]}
    ctx.close(d.p(sub), d._p(T.label2value(sub)), 'p and _p disagree', str(sub), abs_=1e-12)
    for v, lab in enumerate(labs):
        ctx.close(d.pdf(lab), d._pdf(v), 'pdf and _pdf disagree', str(lab), abs_=1e-12)
    if kind == 'integer':
        big = 1. + max(map(abs, labs))
        ctx.close(d.expectation(), d._expectation() + labs[0], 'expectation and _expectation disagree', str(tab), abs_=1e-9 * big)
        ctx.close(d.variance(), d._variance(), 'variance and _variance disagree', str(tab), abs_=1e-9 * big * big)
    else:
        ctx.check(set(d.expectation()) == {T.value2label(v) for v in d._expectation()}, 'expectation and _expectation disagree', str(tab))
    pos = [lab for lab in labs if tab[lab] > 1e-9]
    sub = {pos[int(i)] for i in rng.permutation(len(pos))[:int(rng.integers(1, len(pos) + 1))]}
    ctx.check(d.crop(sub) == d._crop(T.label2value(sub)), 'crop and _crop disagree', '')
    import random
    random.seed(3)
    a = list(d.sample(6))
    random.seed(3)
    ctx.check(a == [T.value2label(v) for v in d._sample(6)], 'sample and _sample disagree', '')
    # equivalence of domains
    ctx.count('equivalence')
    if kind == 'symbolic':
        other = list(labs)
        r = rng.random()
        if r < .3:
            other = labs + ['extra']
        elif r < .6 and len(labs) > 1:
            other = labs[:-1]
        elif r < .8:
            other = [labs[i] for i in rng.permutation(len(labs))]
        O = SymbolicType(T.__name__, labels=other)
    elif kind == 'integer':
        other = list(labs)
        r = rng.random()
        if r < .3:
            other = labs + [labs[-1] + 1]
        elif r < .6:
            other = [v + 1 for v in labs]
        O = IntegerType(T.__name__, other[0], other[-1])
    else:
        O, other = Bool, labs
    ctx.check(T.equiv(O) == (other == labs) and O.equiv(T) == (other == labs), 'equiv() of domains', lambda: f'{labs}, {other}: {T.equiv(O)}, {O.equiv(T)}')
    ctx.check((T.labels == O.labels) == (other == labs) and (T.values == O.values) == (other == labs),
              'domains with different labels are equal', lambda: f'{labs}, {other}')
    if kind != 'bool':
        V = SymbolicVariable if kind == 'symbolic' else IntegerVariable
        ctx.check((V('v', T) == V('v', O)) == (other == labs), 'variables with different domains are equal', lambda: f'{labs}, {other}')


def assignments(ctx, rng):
    w = gen.make_world(rng, n=5)
    lab, val = LabelAssignment(variables=w.variables), ValueAssignment(variables=w.variables)
    want = {}
    for v in w.variables:
        if rng.random() < .2:
            continue
        if v.numeric:
            m, s = ref.affine(v)
            x = np.array(w.cols[v.name])
            if rng.random() < .3:
                u = float(rng.choice(x))
                lab[v], val[v] = u, (u - m) / s
            else:
                u = rand_interval(ctx, rng, x)
                lab[v.name if rng.random() < .5 else v] = u
                val[v] = ContinuousSet((u.lower - m) / s, (u.upper - m) / s, u.left, u.right)
        else:
            labs = ref.labels_of(v)
            if rng.random() < .3:
                i = int(rng.integers(len(labs)))
                lab[v], val[v] = labs[i], i
            else:
                sub = [int(i) for i in rng.permutation(len(labs))[:int(rng.integers(1, len(labs) + 1))]]
                lab[v], val[v] = {labs[i] for i in sub}, set(sub)
    ctx.count('assignments')
    ctx.note = {'assignment': repr(lab)}
    before = repr(lab)

    def agree(a, b, mech):
        ctx.check(list(a.keys()) == list(b.keys()), mech + ' (variables)', lambda: f'{a}, {b}')
        for var, x in a.items():
            y = b[var]
            if isinstance(x, ContinuousSet):
                sc = 1e-11 * (1 + max(abs(e) for e in (y.lower, y.upper, 0) if np.isfinite(e)) + abs(ref.affine(var)[0] / ref.affine(var)[1]))
                same_interval(ctx, x, y, mech, sc * max(1, ref.affine(var)[1]))
            elif var.numeric:
                ctx.close(x, y, mech, lambda: f'{var}', rel=1e-9, abs_=1e-9 * (1 + abs(ref.affine(var)[0])))
            else:
                ctx.check(x == y and type(x) is type(y), mech, lambda: f'{var}: {x!r} instead of {y!r}')
    agree(lab.value_assignment(), val, 'value_assignment() of labels')
    agree(val.label_assignment(), lab, 'label_assignment() of values')
    agree(lab.value_assignment().label_assignment(), lab, 'round trip of an assignment')
    ctx.check(repr(lab) == before, 'conversion changes the assignment', '')
    ctx.check(type(lab.value_assignment()) is ValueAssignment and type(val.label_assignment()) is LabelAssignment, 'type of a converted assignment', '')
    for var, x in lab.scalar2sets().items():
        y = lab[var]
        if var.numeric:
            ctx.check(isinstance(x, ContinuousSet) and (raw(x) == raw(y) if isinstance(y, ContinuousSet) else (x.lower, x.upper) == (y, y)),
                      'scalar2sets() of a numeric variable', lambda: f'{y}: {x}')
        else:
            ctx.check(x == (y if isinstance(y, set) else {y}), 'scalar2sets() of a discrete variable', lambda: f'{y}: {x}')
    if val:
        ctx.nontrivial('assignment', before)
    for v in w.variables:
        bads = [('?', LabelAssignment), (-7, ValueAssignment)] if v.symbolic else [('?', LabelAssignment), ([1], ValueAssignment)] if v.numeric else []
        for bad, A in bads:
            ctx.count('rejected labels')
            try:
                A(variables=w.variables)[v] = bad
            except TypeError:
                continue
            ctx.check(False, 'assignment accepts an illegal label', f'{v}: {bad}')


def bindings(ctx, rng):
    w = gen.make_world(rng, n=int(rng.choice([5, 12, 30])))
    blurred = {}
    if rng.random() < .4:
        vs = []
        for v in w.variables:
            if v.numeric:
                b = float(rng.choice([.05, .2, .5]))
                blurred[v.name] = b
                v = NumericVariable(v.name, v.domain, blur=b)
            vs.append(v)
        w.variables = vs
    t = gen.make_tree(rng, w, min_samples_leaf=int(rng.integers(1, 6)))
    ctx.note = {**gen.describe(w, t), 'blur': blurred}
    if blurred:
        x = list(blurred)[int(rng.integers(len(blurred)))]
        v = w.var(x)
        m, s = ref.affine(v)
        pl = ref.PL(t.priors[x].cdf)
        y = float(rng.choice(w.cols[x])) if rng.random() < .5 else float(rng.uniform(min(w.cols[x]), max(w.cols[x])))
        if len(pl.segs) > 2 and not pl.atoms(1e-9):
            ctx.count('blurred evidence')
            got = t.bind({x: y})[x]
            z = (y - m) / s
            q = pl.F(z)
            b = blurred[x]
            sc = 1e-7 * (max(abs(k) for k in pl.knots) + 1) * s + 1e-9 * abs(m)
            for side, p in (('lower', q - b / 2), ('upper', q + b / 2)):
                if not 1e-6 < p < 1 - 1e-6:
                    continue
                e = (getattr(got, side) - m) / s
                d = 1e-9 * max(1., abs(e), abs(m / s))
                ctx.check(pl.Fm(e - d) - 1e-6 <= p <= pl.F(e + d) + 1e-6, 'blurred evidence is not the interval of the blurred quantiles',
                          lambda: f'{side} end {getattr(got, side)} of {y} with blur {b}: quantile {pl.F(e)} instead of {p}')
            gv = t.bind({x: z}, space='values')[x]
            for side in ('lower', 'upper'):
                ctx.close(getattr(gv, side) * s + m, getattr(got, side), 'blurred evidence in value space differs', side, rel=1e-6, abs_=sc)
    user, val = {}, {}
    for v in w.variables:
        if rng.random() < .25:
            continue
        if v.numeric:
            i = rand_interval(ctx, rng, np.array(w.cols[v.name]))
            if v.name in blurred and i.lower == i.upper:
                continue
            r = rng.random()
            if i.lower == i.upper:
                user[v.name] = i.lower if r < .7 else i
            elif i.left == INC and i.right == INC:
                user[v.name] = [i.lower, i.upper] if r < .5 else i
            elif r < .3:
                i = ContinuousSet(i.lower, np.inf)
                user[v.name] = [i.lower, [None, float('inf'), ...][int(rng.integers(3))]] if np.isfinite(i.lower) else i
            else:
                user[v.name] = i
            val[v.name] = i
        else:
            user[v.name], val[v.name] = gen.discrete_event(rng, v)
    none = [v.name for v in w.variables if v.name not in user]
    keep = repr(user)
    forms = [dict(user), {w.var(k): x for k, x in user.items()}, {**user, **{k: None for k in none}}]
    got = [t.bind(f) for f in forms] + [t.bind(**user), t.bind(dict(user), space='labels')]
    ctx.check(repr(user) == keep, 'bind() changes its argument', '')
    for g in got:
        ctx.count('bindings')
        ctx.check(type(g) is LabelAssignment, 'type of a binding', str(type(g)))
        ctx.check({v.name for v in g.keys()} == set(user), 'bind() binds other variables', lambda: f'{g}')
        for v, x in g.items():
            ctx.check(v is t.varnames[v.name], 'bind() uses other variable objects', '')
            e = val[v.name]
            if v.numeric:
                ctx.check(isinstance(x, ContinuousSet) and raw(x) == raw(e), 'binding of a numeric variable', lambda: f'{v}: {x} instead of {e}')
            else:
                ctx.check(x == e and type(x) is set, 'binding of a discrete variable', lambda: f'{v}: {x} instead of {e}')
    # value space
    ctx.count('value bindings')
    vals = {k: (ContinuousSet(*[(y - ref.affine(w.var(k))[0]) / ref.affine(w.var(k))[1] for y in (x.lower, x.upper)], x.left, x.right)
                if isinstance(x, ContinuousSet) else {ref.labels_of(w.var(k)).index(y) for y in x}) for k, x in val.items()}
    gv = t.bind(vals, space='values')
    ctx.check(type(gv) is ValueAssignment and {v.name for v in gv.keys()} == set(vals), 'binding in value space', '')
    for v, x in gv.items():
        ctx.check(x == vals[v.name], 'binding in value space', lambda: f'{v}: {x} instead of {vals[v.name]}')
    if val:
        ctx.nontrivial('bind', keep)
        ctx.count('tree entry points')
        ps = [t.infer(f) for f in (dict(user), got[0], got[0].value_assignment(), gv)]
        for p in ps[1:]:
            ctx.close(p, ps[0], 'infer() depends on the way the query is passed', lambda: f'{ps}', abs_=1e-7)
    single = {v.name: float(w.cols[v.name][0]) for v in w.variables if v.numeric}
    if single:
        g = t.bind(single, allow_singular_values=True)
        ctx.check({v.name: x for v, x in g.items()} == single, 'singular values are changed', lambda: f'{g}')
    bad = [{'nope': 1}]
    bad += [{v.name: 'x'} for v in w.variables if v.numeric]
    bad += [{v.name: ('a', 'b')} for v in w.variables if v.symbolic or v.integer]
    bad += [{v.name: '?!'} for v in w.variables if v.symbolic]
    for b in bad:
        ctx.count('rejected bindings')
        try:
            r = t.bind(b)
        except Exception:
            continue
        ctx.check(False, 'illegal binding is accepted', lambda: f'{b}: {r}')


def frames(ctx, rng):
    n = int(rng.choice([3, 10, 40]))
    cols, kinds = {}, {}
    for j in range(int(rng.integers(1, 6))):
        k = str(rng.choice(['float', 'int', 'str', 'bool']))
        name = f'{k}{j}'
        kinds[name] = k
        cols[name] = (rng.normal(0, 5, n) if k == 'float' else rng.integers(-5, 9, n) if k == 'int' else
                      [str(x) for x in rng.choice(['x', 'b', 'zz', '1'], n)] if k == 'str' else rng.random(n) < .5)
    df = pd.DataFrame(cols)
    scale = bool(rng.random() < .6)
    keep = df.copy()
    vs = infer_from_dataframe(df, scale_numeric_types=scale, precision=.03, min_impurity_improvement=.01,
                              unique_domain_names=bool(rng.random() < .5))
    ctx.count('inferred variables', len(vs))
    ctx.note = {'kinds': kinds, 'scale': scale}
    ctx.check(df.equals(keep), 'infer_from_dataframe() changes the data', '')
    ctx.check([v.name for v in vs] == list(cols), 'inferred variables', lambda: str(vs))
    for v in vs:
        k, c = kinds[v.name], df[v.name]
        ctx.check((v.numeric, v.integer, v.symbolic) == (k == 'float', k == 'int', k in ('str', 'bool')), 'kind of an inferred variable', lambda: f'{v}: {k}')
        if k == 'float':
            ctx.check(v.precision == .03, 'settings of an inferred variable', '')
            for x in c[:3]:
                z = v.domain.label2value(float(x))
                ctx.close(v.domain.value2label(z), float(x), 'round trip in an inferred domain', '', abs_=1e-9)
                ctx.check(scale or z == x, 'unscaled domain is scaled', '')
            if scale and c.nunique() > 1:
                z = np.array([v.domain.label2value(float(x)) for x in c.unique()])
                ctx.check(abs(z.mean()) < 1e-6 and abs(z.std() - 1) < 1e-6, 'scaled data are not standardised', f'{z.mean()}, {z.std()}')
        elif k == 'int':
            ctx.check((v.domain.lmin, v.domain.lmax) == (c.min(), c.max()), 'range of an inferred integer domain', '')
        elif k == 'bool':
            ctx.check(v.domain is Bool, 'domain of a boolean column', '')
        else:
            ctx.check(set(v.domain.labels.values()) == set(c) and len(v.domain.labels) == c.nunique(), 'labels of an inferred domain', '')
    t = JPT(vs, min_samples_leaf=2).learn(df)
    ctx.close(t.infer({v.name: (ContinuousSet(float(df[v.name].min()), float(df[v.name].max())) if v.numeric else
                                set(df[v.name].tolist())) for v in vs}), 1, 'data have not probability one', '', abs_=1e-7)


def case(ctx):
    r = ctx.rng.random()
    (scalers if r < .05 else numerics if r < .3 else discretes if r < .55 else assignments if r < .7 else bindings if r < .93 else frames)(ctx, ctx.rng)
