"""Queries are pure and repeatable, also concurrently."""
import copy
import io
import json
import pickle
import random
import sys
import threading

import numpy as np

from jpt.base.errors import Unsatisfiability
from jpt.base.intervals import ContinuousSet, RealSet

from vf import gen, ref
from vf.canon import canon, tree as ctree

PROPERTY = 'C06'
RULE = ('Random learned (or conditioned) tree; a random history of 12 (quick) or 30 (thorough) read-only operations '
        '(all queries, sampling, copying, conditioning, pruning, serialisation, formatting, and the read-only methods of '
        'its distributions) is recorded twice, in different order, and once more with the operations interleaved in 4 '
        'threads with a thread switch every few bytecodes. Bitwise snapshots of the tree, of the arguments and of the '
        'answers are compared; returned objects are modified in between. A quarter of the cases asks series of very similar queries '
        'and compares the answers with those of a fresh copy of the tree. Non-trivial: every history of at least 8 '
        'different operations.')
CASES = {'quick': 800, 'thorough': 16000}
REQUIRED = ['operations', 'results modified', 'thread interleavings', 'threaded operations', 'arguments compared', 'similar queries in a row',
            'similar queries with different answers']


def ops(ctx, w, t):
    """[(name, callable)]: every callable is deterministic and builds its result anew"""
    rng = ctx.rng
    mix = ref.Mixture(t)
    out = []

    def evid():
        for _ in range(5):
            eu, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
            if mix.p(ev) > 1e-4 and not ref.ill_conditioned(mix, ev):
                return eu
        return {}

    def add(name, f, *args):
        out.append((name, f, args))

    for _ in range(3):
        qu, _ = gen.event(rng, w, t, gen.subset(rng, w.names, 1))
        add('infer', lambda q, e: t.infer(q, e), gen.as_arg(rng, t, qu), gen.as_arg(rng, t, evid()))
    for _ in range(2):
        add('posterior', lambda e: t.posterior(evidence=e), gen.as_arg(rng, t, evid()))
        add('mpe', lambda e: t.mpe(e), gen.as_arg(rng, t, evid()))
        add('conditional_jpt', lambda e: t.conditional_jpt(e), gen.as_arg(rng, t, evid()))
    add('posterior without evidence', lambda: t.posterior())
    add('expectation', lambda e: t.expectation(list(t.variables), e), gen.as_arg(rng, t, evid()))
    add('moment', lambda e: t.moment(2, evidence=e), t.bind(evid()))
    add('kmpe', lambda e: list(t.kmpe(e, k=4)), gen.as_arg(rng, t, evid()))
    add('copy', lambda: t.copy())
    df = w.df().iloc[:6]
    add('likelihood', lambda d: t.likelihood(d), df)
    add('encode', lambda d: t.encode(d), df)
    row = {v.name: w.cols[v.name][0] for v in w.variables}
    add('pdf', lambda d: t.pdf(t.bind(d)), row)
    add('apply', lambda e: [l.idx for l in t.apply(e)], gen.as_arg(rng, t, evid()))
    add('sample', lambda: (np.random.seed(5), random.seed(5), t.sample(5))[2])
    if len(w.variables) > 1:
        add('prune', lambda: t.prune(.5))
    add('to_json', lambda: json.dumps(t.to_json(), default=str))
    add('pickle', lambda: pickle.loads(pickle.dumps(t)))
    add('save', lambda: (lambda b: (t.save(b, protocol='json'), b.getvalue())[1])(io.StringIO()))
    add('str', lambda: t.pfmt())
    add('parameters', lambda: [t.number_of_parameters(), t.depth(), t.total_samples()])
    add('eq', lambda: t == t)
    leaf = list(t.leaves.values())[int(rng.integers(len(t.leaves)))]
    other = list(t.leaves.values())[int(rng.integers(len(t.leaves)))]
    add('reverse', lambda q: [(sorted((v.name, float(c)) for v, c in conf.items()), l.idx) for conf, l in t.reverse(q, confidence=.1)], dict(qu))
    e = t.bind(evid()).value_assignment()
    add('consistent', lambda x: [[bool(l.applies(x)), bool(l.path_consistent_with(x)), bool(l.consistent_with(x)), float(l.probability(x))] for l in t.leaves.values()], e)
    add('leaf.conditional', lambda x: leaf.conditional_leaf(x).distributions if leaf.probability(x) > 1e-6 else None, e)
    add('leaf.copy', lambda: leaf.copy().distributions)
    add('leaf.path', lambda: list(leaf.path.values()))
    add('leaf.mpe', lambda: list(leaf.mpe(t.minimal_distances)))
    add('leaf.sample', lambda: (np.random.seed(5), random.seed(5), leaf.sample(3))[2])
    add('leaf.str', lambda: [str(leaf), leaf.format_path(), repr(leaf.idx)])
    for v in w.variables:
        d, o = leaf.distributions[v], other.distributions[v]
        if v.numeric:
            u, _ = gen.numeric_event(rng, w, t, v)
            if isinstance(u, list):
                u = ContinuousSet(*u)
            add('numeric.p', lambda x, d=d: d.p(x), u)
            add('numeric.crop', lambda x, d=d: d.crop(x), u)
            add('numeric.views', lambda d=d: [d.cdf, d.pdf, d.ppf, d.expectation(), d.variance(), d.mpe(), d.k_mpe(2)])
            add('numeric.copy', lambda d=d: d.copy())
            add('numeric.json', lambda d=d: type(d).from_json(d.to_json()))
            add('numeric.add', lambda d=d, o=o: d + o if len(d.cdf) * len(o.cdf) < 200 else None)
            add('numeric.moment', lambda d=d: [d.moment(2, .5), d.moment(1, 0)])
            add('numeric.approximate', lambda d=d: d.approximate(.2))
            add('numeric.kl', lambda d=d, o=o: d.kl_divergence(o))
            add('numeric.jaccard', lambda d=d, o=o: type(d).jaccard_similarity(d, o))
        else:
            u, _ = gen.discrete_event(rng, v)
            if isinstance(u, list):
                u = set(u)
            add('discrete.p', lambda x, d=d: d.p(x), u)
            add('discrete.crop', lambda x, d=d: d.crop(x), u)
            add('discrete.views', lambda d=d: [d.expectation(), d.mpe(), d.k_mpe(2), list(d.items()), list(d.sorted())])
            add('discrete.copy', lambda d=d: d.copy())
            add('discrete.kl', lambda d=d, o=o: [d.kl_divergence(o), type(d).jaccard_similarity(d, o)])
            add('discrete.json', lambda d=d: type(d).from_json(d.to_json()))
        add('merge', lambda v=v, d=d, o=o: v.domain.merge([d, o], [.3, .7]))
    return out


def mutate(x, depth=0):
    """Modifies a returned object as far as possible."""
    from jpt.distributions import Distribution
    from jpt.trees import JPT
    from jpt.variables import VariableMap
    if depth > 3:
        return
    if isinstance(x, JPT):
        for l in x.leaves.values():
            l.prior = -1.
            mutate(l.distributions, depth + 1)
        for n in x.innernodes.values():
            mutate(n.splits, depth + 1)
        mutate(x.priors, depth + 1)
    elif isinstance(x, Distribution):
        if hasattr(x, '_quantile'):
            if x._quantile is not None and x._quantile.cdf is not None:
                for i in x._quantile.cdf.intervals:
                    i.lower = i.upper = 17.
                x._quantile.cdf.functions.clear()
        elif isinstance(x._params, np.ndarray):
            x._params[...] = -1
    elif isinstance(x, VariableMap):
        for y in list(x.values()):
            mutate(y, depth + 1)
        for k in list(x.keys()):
            del x[k]
    elif isinstance(x, dict):
        for y in list(x.values()):
            mutate(y, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for y in x:
            mutate(y, depth + 1)
        x.clear()
    elif isinstance(x, tuple):
        for y in x:
            mutate(y, depth + 1)
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, RealSet):
        for i in x.intervals:
            i.lower = i.upper = 17.
    elif isinstance(x, ContinuousSet):
        x.lower = x.upper = 17.
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 0


def call(f, args):
    try:
        return f(*args)
    except Unsatisfiability:
        return 'unsatisfiable'


def histories(ctx, rng):
    """a query that follows very similar ones is answered as by a tree that has never been asked before"""
    w, t = gen.world_tree(rng, n=int(rng.choice([8, 20, 40])))
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    nums = [v for v in w.variables if v.numeric]
    calls = {
        'infer': lambda t, q, e: t.infer(q, e, fail_on_unsatisfiability=False),
        'posterior': lambda t, q, e: t.posterior(evidence=e, fail_on_unsatisfiability=False),
        'expectation': lambda t, q, e: t.expectation(list(t.variables), e, fail_on_unsatisfiability=False),
        'conditional_jpt': lambda t, q, e: t.conditional_jpt(e, fail_on_unsatisfiability=False),
        'apply': lambda t, q, e: sorted(l.idx for l in t.apply(t.bind(e))),
        'reverse': lambda t, q, e: sorted((l.idx, sorted((v.name, float(c)) for v, c in cf.items())) for cf, l in
                                          ((y, x) if hasattr(y, 'items') else (x, y) for x, y in t.reverse(q, confidence=.1))),
        'mpe': lambda t, q, e: t.mpe(e, fail_on_unsatisfiability=False),
    }
    for _ in range(6):
        query, _ = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        seq = []
        names = gen.subset(rng, w.names, 1, 2)
        base = {}
        for n in names:
            v = w.var(n)
            if v.numeric:
                base[n] = float(rng.choice(gen.interesting_points(rng, w, t, v)))
            else:
                base[n], _ = gen.discrete_event(rng, v)
        delta = float(10 ** rng.uniform(-5, -3.4)) * (1 if rng.random() < .7 else 100)
        for side in rng.permutation([-1, 0, 1]):
            e = {}
            for n, b in base.items():
                if isinstance(b, float):
                    c = b + side * delta
                    r = delta * float(rng.choice([.3, .45, 1.2]))
                    e[n] = ContinuousSet(c - r, c + r) if rng.random() < .8 else RealSet([ContinuousSet(c - r, c + r), ContinuousSet(b + 3 * delta, b + 4 * delta)])
                elif rng.random() < .8:
                    e[n] = b if not isinstance(b, (set, list)) or len(b) < 2 else set(list(b)[:int(rng.integers(1, len(b) + 1))])
                else:
                    e[n], _ = gen.discrete_event(rng, w.var(n))
            seq.append(e)
        name = str(rng.choice(list(calls)))
        f = calls[name]

        def ask(tree, e):
            try:
                return canon(f(tree, dict(query), dict(e)))
            except Unsatisfiability:
                return 'unsatisfiable'
        got = [ask(t, e) for e in seq]
        for e, g in list(zip(seq, got))[1:]:
            want = ask(t.copy(), e)
            ctx.count('similar queries in a row')
            ctx.check(g == want, f'{name} depends on earlier queries', lambda: f'{e} after {seq[0]}: {g!s:.200} instead of {want!s:.200}')
        if any(g != got[0] for g in got):
            ctx.count('similar queries with different answers')
            ctx.nontrivial(name, str(got)[:100])


def case(ctx):
    rng = ctx.rng
    if ctx.i % 4 == 3:
        return histories(ctx, rng)
    w, t = gen.world_tree(rng, n=int(rng.choice([8, 20, 40])))
    if rng.random() < .25:
        eu, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 1, 2))
        m = ref.Mixture(t)
        if m.p(ev) > 1e-3 and not ref.ill_conditioned(m, ev):
            t = t.conditional_jpt(t.bind(eu))
    ctx.note = gen.describe(w, t)
    todo = ops(ctx, w, t)
    # kmpe enumerates combinations of all values; keep to small ones
    k = 18 if ctx.tier == 'quick' else 30
    idx = list(rng.permutation(len(todo)))[:k]
    todo = [todo[i] for i in idx]
    before = ctree(t)

    def same(name):
        now = ctree(t)
        if now != before:
            keys = [x for x in before if before[x] != now[x]]
            ctx.check(False, f'{name} changes the tree', f'{keys}', before=str([before[x] for x in keys])[:800],
                      after=str([now[x] for x in keys])[:800], world=ctx.note)
        ctx.check(True, '')

    answers = []
    for name, f, args in todo:
        a0 = canon(list(args))
        r = call(f, args)
        ctx.count('operations')
        ctx.count(f'op {name}')
        answers.append(canon(r))
        ctx.count('arguments compared')
        ctx.check(canon(list(args)) == a0, f'{name} changes its arguments', f'{a0} -> {canon(list(args))}')
        same(name)
        if name != 'apply':
            mutate(r)
            ctx.count('results modified')
            same(f'modifying the result of {name}')
            ctx.check(canon(list(args)) == a0, f'the result of {name} shares state with its arguments', '')
    for j in rng.permutation(len(todo)):
        name, f, args = todo[j]
        ctx.check(canon(call(f, args)) == answers[j], f'{name} is not repeatable', f'{answers[j]!s:.400}')
        ctx.count('operations')
    same('the second history')
    if len({n for n, _, _ in todo}) >= 8:
        ctx.nontrivial(ctx.i, sorted({n for n, _, _ in todo}))
    # interleavings; operations that use the global random state are left out
    par = [(n, f, a, x) for (n, f, a), x in zip(todo, answers) if not n.endswith('sample')]
    errors, order = [], []
    lock = threading.Lock()

    def run(seed):
        r = np.random.default_rng(seed)
        for j in r.permutation(len(par))[:8]:
            n, f, a, x = par[j]
            try:
                y = canon(call(f, a))
            except Exception as e:
                y = repr(e)
            with lock:
                order.append((seed, n))
                if y != x:
                    errors.append((n, str(y)[:300], str(x)[:300]))

    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        ts = [threading.Thread(target=run, args=(int(rng.integers(1 << 30)),)) for _ in range(4)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count('threaded operations', len(order))
    switches = sum(1 for a, b in zip(order, order[1:]) if a[0] != b[0])
    ctx.count('thread interleavings', switches)
    if errors:
        ctx.check(False, f'{errors[0][0]} answers differently when run concurrently', str(errors[0]))
    same('the concurrent history')
