"""Discrete distributions implement the declared finite distribution."""
import math

import numpy as np

from jpt.base import utils
from jpt.distributions import Bool, SymbolicType, IntegerType

from vf import dists, gen

PROPERTY = 'C16'
RULE = ('Random symbolic, boolean and integer domains (labels that look like values, negative ranges, single labels) with '
        'parameters that are set, fitted to random data (row subsets, other columns) or assigned one by one; every answer is '
        'compared with a dictionary label -> frequency: probabilities of labels and label sets in all containers, items, '
        'order, mode, k-MPE, expectation, variance, moments, impulses, similarity, samples. Non-trivial: at least two '
        'labels of different positive probability.')
CASES = {'quick': 24000, 'thorough': 400000}
REQUIRED = ['symbolic', 'integer', 'bool', 'fitted', 'set', 'events', 'unknown labels', 'ties', 'zero labels', 'moments',
            'samples', 'similarities', 'impulses', 'item assignment', 'illegal domains', 'impossible events', 'wrong number of parameters', 'measures']
ASSUMPTIONS = ['sample frequencies are compared with a tolerance of seven standard deviations',
               'kl_divergence is the measure sum p|p - q| that the test-suite of the project pins']


def make(ctx, rng):
    kind = str(rng.choice(['symbolic', 'integer', 'bool'], p=[.45, .4, .15]))
    ctx.count(kind)
    T = dists.domain(rng, kind)
    labs = dists.labels(T)
    if rng.random() < .5:
        ctx.count('set')
        d, tab, _ = dists.discrete_of(rng, T)
        return kind, T, d, tab
    ctx.count('fitted')
    n = int(rng.choice([1, 2, 5, 30, 200]))
    cols = int(rng.integers(1, 4))
    col = int(rng.integers(0, cols))
    vals = rng.choice(len(labs), size=n, p=rng.dirichlet(np.full(len(labs), .7)))
    data = rng.uniform(-1000, 1000, (n, cols))
    data[:, col] = vals
    rows = rng.choice(n, size=int(rng.integers(1, n + 1)), replace=rng.random() < .2) if rng.random() < .5 else None
    used = vals if rows is None else vals[rows]
    d = T()
    before = data.copy()
    if kind == 'integer' and rng.random() < .5:
        data[:, col] = [labs[v] for v in vals]
        before = data.copy()
        r = d.fit(data, rows, col)
    else:
        r = d._fit(data, rows, None if col == 0 and rng.random() < .5 else col)
    ctx.check(r is d, 'fit does not return the distribution', '')
    ctx.check((data == before).all(), 'fit changes the data', '')
    tab = {lab: float(np.mean(used == v)) for v, lab in enumerate(labs)}
    return kind, T, d, tab


def forms(rng, items):
    """the same event in different containers"""
    items = list(items)
    yield set(items)
    o = [items[i] for i in rng.permutation(len(items))] if items else []
    yield o
    yield tuple(o + o[:1])     # an event lists a label twice
    if len(items) == 1:
        yield items[0]


def compare(ctx, kind, T, d, tab, tol=1e-9):
    rng = ctx.rng
    labs = list(tab)
    for v, lab in enumerate(labs):
        ctx.close(d.p(lab), tab[lab], 'probability of a label', lambda: f'{lab}', abs_=tol)
        ctx.close(d._p(v), tab[lab], 'probability of a value', lambda: f'{v}', abs_=tol)
        ctx.close(d._p(np.int64(v)), tab[lab], 'probability of a value', lambda: f'np.int64({v})', abs_=tol)
        ctx.close(d.pdf(lab), tab[lab], 'density of a label', lambda: f'{lab}', abs_=tol)
        ctx.close(d._pdf(v), tab[lab], 'density of a value', lambda: f'{v}', abs_=tol)
        ctx.close(d[lab], tab[lab], 'item of a distribution', lambda: f'{lab}', abs_=tol)
        ctx.close(d.probabilities[v], tab[lab], 'probabilities', lambda: f'{v}', abs_=tol)
        ctx.check(d.value2label(v) == lab and d.label2value(lab) == v, 'label and value do not correspond', str((lab, v)))
        if kind == 'symbolic':
            ctx.check(lab in d, 'label is not contained in its distribution', str(lab))
    for _ in range(4):
        sub = [int(i) for i in rng.permutation(len(labs))[:int(rng.integers(0, len(labs) + 1))]]
        want = math.fsum(tab[labs[i]] for i in sub)
        for e in forms(rng, [labs[i] for i in sub]):
            ctx.count('events')
            ctx.close(d.p(e), want, 'probability of an event', lambda: f'{e}', abs_=tol)
            if all(float(d.probabilities[i]) == 0 for i in sub):
                ctx.count('impossible events')
                ctx.check(d.p(e) == 0, 'probability of an impossible event is not zero', lambda: f'{e}: {d.p(e)}')
        for e in forms(rng, sub):
            ctx.close(d._p(e), want, 'probability of a value event', lambda: f'{e}', abs_=tol)
    ctx.check(T.n_values == len(labs), 'number of values', f'{T.n_values}')
    it = list(d.items())
    ctx.check([lab for _, lab in it] == labs, 'items() yields other labels', lambda: f'{it}')
    ctx.check([v for _, v in d._items()] == list(range(len(labs))), '_items() yields other values', '')
    for (p, lab), (q, _) in zip(it, d._items()):
        ctx.close(p, tab[lab], 'probability in items()', str(lab), abs_=tol)
        ctx.close(q, tab[lab], 'probability in _items()', str(lab), abs_=tol)
    so = list(d.sorted())
    ctx.check(sorted(map(repr, (lab for _, lab in so))) == sorted(map(repr, labs)) and
              all(a[0] >= b[0] for a, b in zip(so, so[1:])), 'sorted() is not in descending order', lambda: f'{so}')
    for p, lab in so:
        ctx.close(p, tab[lab], 'probability in sorted()', str(lab), abs_=tol)
    # modes
    exact = [float(p) for p in d.probabilities]
    levels = sorted({p for p in exact if p > 0}, reverse=True)
    want = [({labs[i] for i, p in enumerate(exact) if p == lv}, lv) for lv in levels]
    ctx.count('ties', int(any(len(s) > 1 for s, _ in want)))
    ctx.count('zero labels', int(0 in exact))
    ctx.check(list(d.k_mpe()) == want, 'k_mpe() is not the descending list of label sets', lambda: f'{d.k_mpe()} instead of {want}')
    k = int(rng.integers(1, len(want) + 3))
    ctx.check(list(d.k_mpe(k)) == want[:k], 'k_mpe(k) is not a prefix of the list', lambda: f'k={k}: {d.k_mpe(k)}')
    ctx.check([({labs[i] for i in s}, p) for s, p in d._k_mpe(k)] == want[:k], '_k_mpe(k) disagrees with k_mpe(k)', '')
    for f in ('mpe', 'mode'):
        ctx.check(tuple(getattr(d, f)()) == want[0], f'{f}() is not the most probable set of labels', lambda: f'{getattr(d, f)()}')
    s, p = d._mpe()
    ctx.check(({labs[i] for i in s}, p) == want[0], '_mpe() disagrees with mpe()', '')
    # moments
    if kind == 'integer':
        ctx.count('moments')
        mean = math.fsum(x * p for x, p in tab.items())
        var = math.fsum((x - mean) ** 2 * p for x, p in tab.items())
        m = max(1., max(abs(x) for x in labs))
        ctx.close(d.expectation(), mean, 'expectation', '', abs_=tol * m)
        ctx.close(d._expectation(), mean - labs[0], 'expectation of the values', '', abs_=tol * m)
        ctx.close(d.variance(), var, 'variance', '', abs_=tol * m * m)
        ctx.close(d._variance(), var, 'variance of the values', '', abs_=tol * m * m)
        for _ in range(2):
            o, c = int(rng.integers(0, 5)), float(rng.choice([0., mean, rng.normal(0, 3)]))
            ctx.close(d.moment(o, c), math.fsum((x - c) ** o * p for x, p in tab.items()), 'moment', f'order {o} at {c}',
                      rel=1e-9, abs_=tol * (m + abs(c)) ** o)
    else:
        ctx.check(d.expectation() == want[0][0], 'expectation of a symbolic distribution is not its mode', str(d.expectation()))
        ctx.check(d.is_dirac_impulse() == any(p == 1 for p in exact), 'is_dirac_impulse() is wrong', '')
        ctx.check(d.number_of_parameters() == (1 if d.is_dirac_impulse() else len(labs)), 'number of parameters', '')
    str(d), repr(d)


def measures(ctx, tab):
    ps = [tab[l] for l in sorted(tab, key=str)]
    n = len(ps)
    h = -sum(p * math.log2(p) for p in ps if p > 0)
    for p in (ps, dict(enumerate(ps)), np.array(ps)):
        before = str(p)
        ctx.close(float(utils.entropy(p)), h, 'entropy', lambda: str(tab), rel=1e-9, abs_=1e-9)
        ctx.close(float(utils.rel_entropy(p)), h / math.log2(n) if n > 1 else 0., 'relative entropy', lambda: str(tab), rel=1e-9, abs_=1e-9)
        ctx.close(float(utils.gini(p)), sum(x * (1 - x) for x in ps) / n, 'gini', lambda: str(tab), rel=1e-9, abs_=1e-9)
        ctx.check(str(p) == before, 'a measure changes its argument', before)
    ctx.close(float(utils.max_entropy(n)), math.log2(n), 'maximal entropy', lambda: str(n), rel=1e-9, abs_=1e-9)
    ctx.count('measures')


def case(ctx):
    rng = ctx.rng
    kind, T, d, tab = make(ctx, rng)
    labs = list(tab)
    ctx.note = {'kind': kind, 'tab': {repr(k): v for k, v in tab.items()}}
    ctx.close(sum(d.probabilities), 1, 'probabilities do not sum to one', '', abs_=1e-9)
    compare(ctx, kind, T, d, tab)
    measures(ctx, tab)
    unknown = [x for x in ['?', -99, 99, .5, None] if x not in labs]
    for u in (unknown[int(rng.integers(len(unknown)))],):
        for e in (u, {u}, [labs[0], u]):
            ctx.count('unknown labels')
            try:
                p = d.p(e)
            except (ValueError, TypeError, KeyError):
                continue
            ctx.check(False, 'unknown label has a probability', lambda: f'{e}: {p}')
    if rng.random() < .4:
        n = int(rng.choice([1, 50, 600]))
        ctx.count('samples', n)
        for raw in (False, True):
            s = list((d._sample if raw else d.sample)(n))
            ctx.check(len(s) == n, 'wrong number of samples', f'{len(s)} instead of {n}')
            s.append((d._sample_one if raw else d.sample_one)())
            if raw:
                s = [labs[v] for v in s]
            for lab, p in tab.items():
                c = sum(1 for x in s if x == lab)
                ctx.check(c == 0 or p > 0, 'impossible label is sampled', str(lab))
                ctx.check(abs(c - len(s) * p) <= 7 * math.sqrt(len(s) * p * (1 - p)) + 7, 'sample frequencies differ',
                          lambda: f'{lab}: {c} of {len(s)}, probability {p}')
            ctx.check(all(x in labs for x in s), 'sample is not a label', '')
    if rng.random() < .4:
        ctx.count('similarities')
        o, otab, _ = dists.discrete_of(rng, T)
        if rng.random() < .2:
            o, otab = d.copy(), tab
        want = math.fsum(min(tab[x], otab[x]) for x in labs) / math.fsum(max(tab[x], otab[x]) for x in labs)
        ctx.close(T.jaccard_similarity(d, o), want, 'Jaccard similarity', '', abs_=1e-9)
        ctx.close(T.jaccard_similarity(o, d), want, 'Jaccard similarity is not symmetric', '', abs_=1e-9)
        ctx.close(d.kl_divergence(o), math.fsum(tab[x] * abs(tab[x] - otab[x]) for x in labs), 'divergence', '', abs_=1e-9)
        ctx.check((d == o) == all(a == b for a, b in zip(d.probabilities, o.probabilities)), 'equality of distributions is wrong', '')
    if kind != 'integer' and rng.random() < .5:
        ctx.count('impulses')
        v = int(rng.integers(len(labs)))
        before = list(d.probabilities)
        i = d.create_dirac_impulse(v)
        ctx.check(list(d.probabilities) == before, 'create_dirac_impulse() changes the distribution', '')
        compare(ctx, kind, T, i, {lab: float(j == v) for j, lab in enumerate(labs)})
    if rng.random() < .3:
        ctx.count('item assignment', int(kind != 'integer'))
        c = d.copy()
        new = rng.dirichlet(np.ones(len(labs)))
        before = list(d.probabilities)
        if kind == 'symbolic':
            for lab, p in zip(labs, new):
                c[lab] = float(p)
        elif kind == 'bool':
            if rng.random() < .5:
                c.set(float(new[1]))
            else:
                lab = bool(rng.random() < .5)
                c[lab] = float(new[int(lab)])
        else:
            c.set([float(p) for p in new])
        ctx.check(list(d.probabilities) == before, 'a copy shares its parameters', '')
        compare(ctx, kind, T, c, {lab: float(p) for lab, p in zip(labs, new)})
    if rng.random() < .2:
        ctx.count('wrong number of parameters')
        for k in {len(labs) + 1, len(labs) - 1} - {0}:
            try:
                T().set([1 / k] * k)
            except ValueError:
                continue
            ctx.check(False, 'wrong number of parameters is accepted', f'{k} instead of {len(labs)}')
        src = np.array([float(p) for p in d.probabilities])
        e = T().set(src)
        src[0] += 1
        ctx.close(e.p(labs[0]), tab[labs[0]], 'parameters are shared with the array they were set from', '', abs_=1e-9)
    if rng.random() < .1:
        ctx.count('illegal domains')
        for f in (lambda: SymbolicType(gen.uid('E'), labels=[]), lambda: SymbolicType(gen.uid('E'), labels=['a', 'b', 'a']),
                  lambda: IntegerType(gen.uid('E'), 3, 2)):
            try:
                t = f()
            except ValueError:
                continue
            ctx.check(False, 'illegal domain is accepted', str(t))
    if len([p for p in set(tab.values()) if p > 0]) > 1:
        ctx.nontrivial(kind, [round(p, 9) for p in tab.values()])
