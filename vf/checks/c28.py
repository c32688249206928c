"""Containers behave like the mappings and queues they stand for."""
import heapq
import json
import re

import numpy as np

from jpt.base.intervals import ContinuousSet, RealSet
from jpt.base.utils import Heap, list2intset, list2interval, mapstr, normalized, setstr_int
from jpt.distributions.utils import HashableOrderedDict, OrderedDictProxy
from jpt.variables import LabelAssignment, ValueAssignment, VariableMap

from vf import gen

PROPERTY = 'C28'
RULE = ('Random histories of operations on variable maps and assignments (variables addressed by object, by an equal object or by name), heaps and ordered '
        'dictionaries are run in lockstep with models made of dicts and sorted lists; after every step all of the observable state is compared. '
        'Normalisation and formatting helpers are compared with their definitions. Non-trivial: histories with at least five changes.')
CASES = {'quick': 15000, 'thorough': 200000}
REQUIRED = ['map histories', 'assignments', 'insertions', 'deletions', 'updates', 'copies', 'deep copies', 'unknown names', 'rejected values', 'differences', 'equalities', 'JSON',
            'conversions', 'heap histories', 'pops', 'heap deletions', 'last in, first out', 'dictionaries', 'normalisations', 'formatted sets']
ASSUMPTIONS = ['deleting a variable also unregisters its name (asserted by the existing tests)']


def raises(ctx, exc, f, mech, msg):
    try:
        r = f()
    except exc:
        return
    ctx.check(False, mech, lambda: f'{msg() if callable(msg) else msg}: {r!r}')


def some(rng, kind):
    r = rng.random()
    if kind == 'map':
        return [None, 0, 1.5, 'text', (1, 2), [1, 2], {3}, {'a': 1}][int(rng.integers(8))]


def assignable(rng, v, labels):
    """valid and invalid values of a variable"""
    dom = v.domain
    if v.numeric:
        ok = [1.5, 2, ContinuousSet(0, 1), RealSet([ContinuousSet(0, 1), ContinuousSet(2, 3)])][int(rng.integers(4))]
        return ok, ['x', {1}, [1, 2], None, (0, 1)][int(rng.integers(5))]
    ls = list(dom.labels.values()) if labels else list(dom.values.values())
    k = int(rng.integers(1, len(ls) + 1))
    pick = {ls[int(i)] for i in rng.choice(len(ls), size=k, replace=False)}
    ok = pick if rng.random() < .5 else next(iter(pick))
    return ok, ({'no such label'} if labels and rng.random() < .5 else 'no such label') if v.symbolic else None


def equal_key(rng, v):
    return v.name if rng.random() < .4 else v.copy() if rng.random() < .3 else v


def same(ctx, m, model, reg, vs, what):
    """all of the observable state"""
    ctx.check(len(m) == len(model) and bool(m) == bool(model), 'wrong length', lambda: f'{what}: {m!r}, {model}')
    ctx.check([v.name for v in m] == list(model) == [v.name for v in m.keys()] == list(m.map), 'wrong keys', lambda: f'{what}: {m!r}, {model}')
    ctx.check(all(a is b for a, b in zip(m.values(), model.values())) and all(v.name == n and a is b for (v, a), (n, b) in zip(m.items(), model.items())), 'wrong values',
              lambda: f'{what}: {m!r}, {model}')
    ctx.check({v.name for v in m.variables} == set(reg) == set(m.varnames) and all(m.varnames[n] == v for n, v in reg.items()), 'wrong variables', lambda: f'{what}: {m.variables}, {reg}')
    for v in vs:
        ctx.check((v in m) == (v.name in m) == (v.name in model), 'wrong membership', lambda: f'{what}: {v.name} in {m!r}')
        if v.name in model:
            ctx.check(m[v] is m[v.name] is m.get(v) is m.get(v.name, 7) is model[v.name], 'wrong value', lambda: f'{what}: {v.name} in {m!r}')
        else:
            ctx.check(m.get(v) is None and m.get(v.name, 7) == 7, 'wrong default', lambda: f'{what}: {v.name} in {m!r}')
            raises(ctx, KeyError, lambda: m[v], 'missing variable has a value', what)


def maps(ctx, rng):
    w = gen.make_world(rng)
    vs = list(w.variables)
    cls = [VariableMap, LabelAssignment, ValueAssignment][int(rng.choice(3, p=[.5, .3, .2]))]
    kind = 'map' if cls is VariableMap else 'labels' if cls is LabelAssignment else 'values'

    def value(v):
        return some(rng, 'map') if kind == 'map' else assignable(rng, v, kind == 'labels')[0]

    known = [v for v in vs if rng.random() < .6]
    start = [(v, value(v)) for v in vs if rng.random() < .4]
    r = rng.random()
    m = cls(dict(start) if r < .4 else start, variables=known if rng.random() < .8 else None) if r < .8 else cls(variables=known)
    if r >= .8:
        start = []
    model, reg = {v.name: x for v, x in start}, {v.name: v for v in ([*m.variables])}
    ctx.check(set(reg) <= {v.name for v in known} | set(model) and set(model) <= set(reg), 'wrong variables', lambda: f'{reg}')
    same(ctx, m, model, reg, vs, 'new map')
    ctx.count('map histories' if kind == 'map' else 'assignments')
    steps = int(rng.integers(3, 12))
    log = []
    others = []
    for _ in range(steps):
        v = vs[int(rng.integers(len(vs)))]
        op = rng.choice(['set', 'set', 'set', 'del', 'update', 'iadd', 'isub', 'isub1', 'copy', 'deep', 'bad', 'eq', 'json', 'convert'])
        log.append((op, v.name))
        ctx.note = {'class': cls.__name__, 'history': [str(x) for x in log]}
        if op == 'set':
            k, x = equal_key(rng, v), value(v)
            if type(k) is str and k not in reg:
                raises(ctx, ValueError, lambda: m.__setitem__(k, x), 'unknown name is accepted', k)
                ctx.count('unknown names')
            else:
                m[k] = x
                model[v.name] = x
                reg.setdefault(v.name, v)
                ctx.count('insertions')
        elif op == 'bad':
            if kind != 'map':
                bad = assignable(rng, v, kind == 'labels')[1]
                if bad is not None or v.numeric:
                    k = equal_key(rng, v)
                    raises(ctx, (TypeError, ValueError), lambda: m.__setitem__(k, bad), 'illegal value is accepted', lambda: f'{v.name}: {bad!r}')
                    ctx.count('rejected values')
            raises(ctx, ValueError, lambda: m.__setitem__(17, 1), 'illegal key is accepted', '17')
        elif op in ('del', 'isub1'):
            k = equal_key(rng, v)
            if v.name in model:
                if op == 'del':
                    del m[k]
                else:
                    m -= k
                del model[v.name], reg[v.name]
                ctx.count('deletions')
            else:
                raises(ctx, KeyError, lambda: m.__delitem__(k), 'missing variable can be deleted', v.name)
        elif op in ('update', 'iadd', 'isub'):
            o = cls([(u, value(u)) for u in vs if rng.random() < .4])
            if rng.random() < .1:
                o = m
            om = dict((u.name, x) for u, x in o.items())
            ou = {u.name: u for u in o}
            old = m
            if op == 'update':
                r = m.update(o)
                ctx.check(r is m, 'update does not return the map', '')
            elif op == 'iadd':
                m += o
            else:
                m -= o
                for n in om:
                    if n in model:
                        del model[n], reg[n]
                ctx.count('differences')
            if op != 'isub':
                model.update(om)
                for n, u in ou.items():
                    reg.setdefault(n, u)
                ctx.count('updates')
            ctx.check(m is old, 'operation is not in place', op)
            if o is not m:
                same(ctx, o, om, ou, vs, 'operand of ' + op)
        elif op in ('copy', 'deep'):
            c = m.copy(deep=op == 'deep')
            ctx.check(type(c) is type(m) and c == m and m == c, 'copy is not equal', lambda: f'{m!r}, {c!r}')
            try:
                h = hash(m)
            except TypeError:                # unhashable values
                h = None
            if h is not None:
                ctx.check(hash(c) == h, 'copy has another hash', lambda: f'{m!r}')
            if op == 'copy':
                same(ctx, c, dict(model), dict(reg), vs, 'copy')
                ctx.count('copies')
            else:
                for n, x in model.items():
                    ctx.check(c[n] == x and (c[n] is not x or isinstance(x, (int, float, str, tuple, type(None)))), 'deep copy shares values', lambda: f'{n}: {x!r}')
                ctx.count('deep copies')
            if rng.random() < .5:            # go on with the copy, keep the original
                others.append((m, dict(model), dict(reg)))
                model = model if op == 'copy' else {n: c[n] for n in model}
                m = c
            else:
                others.append((c, dict(model) if op == 'copy' else {n: c[n] for n in model}, dict(reg)))
        elif op == 'eq':
            items = [(reg[n], x) for n, x in model.items()]
            perm = [items[int(i)] for i in rng.permutation(len(items))]
            o = cls(perm, variables=reg.values())
            ctx.check(o == m and not (o != m), 'equal maps differ', lambda: f'{m!r}, {o!r}')
            try:
                ctx.check(hash(o) == hash(m), 'equal maps have different hashes', lambda: f'{m!r}, {o!r}')
            except TypeError:
                pass
            if items:
                del o[items[0][0]]
                ctx.check(o != m, 'different maps are equal', lambda: f'{m!r}, {o!r}')
                o[items[0][0]] = value(items[0][0])
                ctx.check((o == m) == (o[items[0][0]] == items[0][1]), 'different maps are equal' if o == m else 'equal maps differ', lambda: f'{m!r}, {o!r}')
            ctx.check(m != model, 'map equals a dict', '')
            ctx.count('equalities')
        elif op == 'json':
            if kind == 'map' and not all(isinstance(x, (int, float, str)) for x in model.values()):
                continue
            back = cls.from_json(vs, json.loads(json.dumps(m.to_json())))
            want = cls([(reg[n], x) for n, x in model.items()])
            ctx.check(type(back) is cls and [(v.name, x) for v, x in back.items()] == [(v.name, x) for v, x in want.items()] and back == want, 'JSON changes the map',
                      lambda: f'{m!r}: {back!r}')
            ctx.count('JSON')
        elif op == 'convert' and kind != 'map':
            if kind == 'labels':
                c = m.value_assignment()
                ctx.check(type(c) is ValueAssignment and [v.name for v in c] == list(model), 'conversion changes keys', lambda: f'{m!r}: {c!r}')
                back = c.label_assignment()
                ctx.check(type(back) is LabelAssignment, 'wrong type of conversion', '')
                if all(not v.numeric for v in m):
                    ctx.check([(v.name, x) for v, x in back.items()] == list(model.items()), 'conversion changes values', lambda: f'{m!r}: {back!r}')
                ctx.count('conversions')
            s = m.scalar2sets()
            for v, x in s.items():
                raw = model[v.name]
                if v.numeric:
                    ctx.check(isinstance(x, (ContinuousSet, RealSet)) and (x == raw if not isinstance(raw, (int, float)) else raw in x), 'scalars do not become sets', lambda: f'{raw!r}: {x!r}')
                else:
                    ctx.check(isinstance(x, (set, tuple, list)) and set(x) == (raw if isinstance(raw, set) else {raw}), 'scalars do not become sets', lambda: f'{raw!r}: {x!r}')
        same(ctx, m, model, reg, vs, op)
    for o, om, orr in others:
        if o is not m:
            ctx.check([(v.name, x) for v, x in o.items()] == list(om.items()) and {v.name for v in o.variables} == set(orr), 'copies are not independent', lambda: f'{o!r}, {om}')
    if steps >= 5:
        ctx.nontrivial('map', tuple(map(str, log)))


class Item:
    """items that can only be compared for equality"""

    def __init__(self, cost, tag):
        self.cost, self.tag = cost, tag

    def __eq__(self, other):
        return isinstance(other, Item) and (self.cost, self.tag) == (other.cost, other.tag)

    def __repr__(self):
        return f'{self.cost}/{self.tag}'


def heaps(ctx, rng):
    key = rng.random() < .6
    neg = rng.random() < .3
    n = [0]

    def new():
        n[0] += 1
        c = float(rng.integers(0, 8)) if rng.random() < .8 else float(rng.normal())
        return Item(c, n[0] if rng.random() < .8 else 0) if key else c

    k = (lambda x: -x.cost if neg else x.cost) if key else ((lambda x: -x) if neg else None)
    cost = k or (lambda x: x)
    data = [new() for _ in range(int(rng.integers(0, 10)))]
    orig = list(data)
    lifo = rng.random() < .3        # among equal ones
    opts = {'inc': int(rng.choice([-1, -3]))} if lifo else {} if rng.random() < .7 else {'inc': int(rng.choice([1, 2]))}
    h = Heap(data=data if rng.random() < .8 else None, key=k, **opts)
    model = list(data) if len(h) else []
    log = []
    ctx.check(data == orig, 'heap changes the data it is made from', '')
    stable = [(x, i) for i, x in enumerate(model)]        # with the order of insertion
    c = len(stable)
    for _ in range(int(rng.integers(5, 40))):
        op = rng.choice(['push', 'pop', 'pop', 'del', 'index', 'push'])
        log.append(str(op))
        ctx.note = {'history': log, 'data': str(orig)}
        if op == 'push':
            x = new()
            h.push(x)
            stable.append((x, c))
            c += 1
        elif op == 'pop':
            if not stable:
                raises(ctx, IndexError, h.pop, 'empty heap yields an item', '')
                continue
            x = h.pop()
            best = min(cost(y) for y, _ in stable)
            ctx.check(cost(x) == best, 'heap does not yield its minimum', lambda: f'{x} of {[y for y, _ in stable]}')
            # the first (last) one of equal ones
            first = [j for j, (y, _) in enumerate(stable) if cost(y) == best][-1 if lifo else 0]
            ctx.count('last in, first out', int(lifo))
            ctx.check(stable[first][0] == x, 'heap is not stable', lambda: f'{x} of {[y for y, _ in stable]}')
            del stable[first]
            ctx.count('pops')
        elif op == 'del' and stable:
            x = stable[int(rng.integers(len(stable)))][0]
            i = h.index(x)
            ctx.check(h[i] == x, 'wrong index', lambda: f'{x}: {i}')
            got = h[i]
            same_ = [j for j, (y, _) in enumerate(stable) if y is got] if key else [j for j, (y, _) in enumerate(stable) if y == got]
            if len(same_) > 1:                # which one of equal numbers does not matter, unless for stability of equal objects
                same_ = same_[:1]
            del h[i]
            del stable[same_[0]]
            ctx.count('heap deletions')
        elif op == 'index':
            raises(ctx, ValueError, lambda: h.index(Item(99, 99)), 'missing item has an index', '')
        ctx.check(len(h) == len(stable) and bool(h) == bool(stable), 'wrong length', lambda: f'{len(h)}, {len(stable)}')
        items = list(h)
        ctx.check(sorted(map(cost, items)) == sorted(cost(y) for y, _ in stable), 'wrong items', lambda: f'{items}, {stable}')
        ctx.check(list(reversed(h)) == items[::-1] and [h[i] for i in range(len(h))] == items, 'wrong iteration', lambda: f'{items}')
        ctx.check(not items or cost(h[0]) == min(map(cost, items)), 'first item is not the minimum', lambda: f'{items}')
    rest = [cost(h.pop()) for _ in range(len(h))]
    ctx.check(rest == sorted(cost(y) for y, _ in stable), 'heap does not yield its items in order', lambda: f'{rest}')
    ctx.count('heap histories')
    ctx.nontrivial('heap', tuple(log))


def dictionaries(ctx, rng):
    keys = [['a', 'b', 'c', 1, 2.5, (1, 2)][int(i)] for i in rng.permutation(6)[:int(rng.integers(1, 7))]]
    items = [(k, int(rng.integers(5))) for k in keys]
    d, o = HashableOrderedDict(items), OrderedDictProxy(items)
    ref = dict(items)
    for x in (d, o):
        ctx.check(len(x) == len(ref) and list(x) == list(ref) == list(x.keys()) and list(x.values()) == list(ref.values()), 'wrong items', lambda: f'{x}, {ref}')
        for k in ref:
            ctx.check(x[k] == x(k) == ref[k] and x.get(k, 9) == ref[k], 'wrong value', lambda: f'{x}: {k}')
        ctx.check(x.get('zzz', 9) == 9, 'wrong default', str(x))
        raises(ctx, KeyError, lambda: x['zzz'], 'missing key has a value', str(x))
    t = o.transformer()
    ctx.check(all(t(k) == ref[k] for k in ref), 'wrong transformation', str(o))
    raises(ctx, ValueError, lambda: t('zzz'), 'missing key is transformed', str(o))
    e = OrderedDictProxy(list(items))
    ctx.check(e == o and hash(e) == hash(o) and HashableOrderedDict(items) == d and hash(HashableOrderedDict(items)) == hash(d), 'equal dictionaries differ', str(o))
    if len(items) > 1:
        p = OrderedDictProxy(items[::-1])
        ctx.check(p != o, 'dictionaries of different order are equal', str(o))
        ctx.check(OrderedDictProxy(items[:-1]) != o and o != OrderedDictProxy(items[:-1]), 'dictionaries of different length are equal', str(o))
    ctx.check(o != ref and o != 3, 'dictionary equals another type', str(o))
    ctx.count('dictionaries')


def helpers(ctx, rng):
    n = int(rng.integers(1, 8))
    x = [float(v) for v in rng.choice([0., .5, 1., 2., 3., 1e-12, 1e9], size=n)]
    if rng.random() < .3:
        x = [float(v) for v in rng.random(n)]
    neg = rng.random() < .3
    if neg:
        x = [v * (1 if rng.random() < .5 else -1) for v in x]
    zeros = float(rng.choice([0., .1, .5])) if rng.random() < .4 else 0.
    keep = rng.random() < .3
    kind = rng.choice(['list', 'array', 'dict'])
    keys = [f'k{i}' for i in range(n)]
    arg = {'list': lambda: list(x), 'array': lambda: np.array(x), 'dict': lambda: dict(zip(keys, x))}[kind]()
    before = arg.copy()
    f = lambda: normalized(arg, identity_on_zeros=keep, allow_neg=neg, zeros=zeros)
    ctx.note = {'dist': str(arg), 'zeros': zeros, 'identity': keep, 'neg': neg}
    get = lambda r: [r[k] for k in keys] if kind == 'dict' else list(r)
    if not any(x):
        if keep:
            r = f()
            ctx.check(get(r) == x and r is not arg, 'zeros are not left as they are', lambda: str(r))
        else:
            raises(ctx, ValueError, f, 'zeros are normalised', str(arg))
    else:
        r = f()
        ctx.check(type(r) is type(arg) and len(r) == n, 'wrong type of result', lambda: str(type(r)))
        y = get(r)
        ctx.close(sum(map(abs, y)), 1, 'values do not sum to one', lambda: f'{arg}: {r}', abs_=1e-9)
        z = sum(map(abs, x))
        eps = zeros * min(abs(v) for v in x if v) if zeros else 0.
        z2 = z + eps * sum(not v for v in x)
        for a, b in zip(x, y):
            e = (abs(a) or eps) / z2
            ctx.check(abs(abs(b) - e) <= 1e-9 * max(e, 1e-3), 'proportions are not kept', lambda: f'{arg}: {r}')
            ctx.check(a == 0 or (a > 0) == (b >= 0) and (a < 0) == (b <= 0) or b == 0, 'signs are not kept', lambda: f'{arg}: {r}')
        ctx.check(get(arg) == x and type(arg) is type(before), 'normalisation changes its argument', '')
    if neg and any(v < 0 for v in x):
        raises(ctx, ValueError, lambda: normalized(arg), 'negative values are accepted', str(arg))
    ctx.count('normalisations')
    # formatted sets
    s = {int(v) for v in rng.integers(-3, 12, size=int(rng.integers(1, 10)))}
    txt = setstr_int(s, sep_inner=' ', sep_outer=', ')
    got = set()
    for part in txt.split(', '):
        b = re.fullmatch(r'(-?\d+) \.\.\. (-?\d+)', part)
        got |= set(range(int(b[1]), int(b[2]) + 1)) if b else {int(part)}
    ctx.check(got == s, 'formatted set differs', lambda: f'{s}: {txt}')
    ctx.count('formatted sets')
    seq = list(range(int(rng.integers(0, 9))))
    lim = int(rng.integers(0, 7))
    m = mapstr(seq, limit=lim or None)
    if not lim or lim >= len(seq):
        ctx.check(m == [str(i) for i in seq], 'sequence is truncated', lambda: f'{seq}, {lim}: {m}')
    else:
        i = m.index('...')
        ctx.check(m[:i] == [str(v) for v in seq[:i]] and m[i + 1:] == [str(v) for v in seq[len(seq) - len(m) + i + 1:]] and len(m) - 1 <= max(lim, 1), 'wrong truncation',
                  lambda: f'{seq}, {lim}: {m}')
    a, b = sorted(int(v) for v in rng.integers(-5, 9, size=2))
    ctx.check(list2intset([a, b]) == set(range(a, b + 1)), 'wrong set of integers', f'{a}, {b}')
    raises(ctx, ValueError, lambda: list2intset([a, b, b]), 'three bounds are accepted', '')
    lo, hi = [(-np.inf, None), (float(a), float(a))][int(rng.integers(2))], [(np.inf, ...), (float(b), float(b))][int(rng.integers(2))]
    i = list2interval([lo[1], hi[1]])
    ctx.check(i.lower == lo[0] and i.upper == hi[0], 'wrong interval', lambda: f'{lo}, {hi}: {i}')


def case(ctx):
    rng = ctx.rng
    fs = [maps, heaps, dictionaries, helpers]
    fs[int(rng.choice(4, p=[.5, .25, .05, .2]))](ctx, rng)
