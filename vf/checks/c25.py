"""Retrieval: reverse(), apply(), consistent_with() and the printed descriptions agree with the leaves they are about."""
import re

import numpy as np

from jpt.base.intervals import ContinuousSet, EXC, RealSet
from jpt.trees import Leaf
from jpt.variables import VariableMap

from vf import gen, ref
from vf.checks.c05 import dilate

PROPERTY = 'C25'
RULE = ('Learned, conditioned and pruned trees are asked for leaves: reverse() with random queries and confidences, apply(), applies(), '
        'path_consistent_with(), consistent_with() with events, points and partial assignments. The oracle computes the probability of every queried '
        'variable in every leaf and intersects paths itself. The printed form of edges and paths is parsed and evaluated on probe labels. '
        'Non-trivial: leaves are left out and leaves are returned.')
CASES = {'quick': 2500, 'thorough': 60000}
REQUIRED = ['returned leaves', 'left out leaves', 'several confidences', 'unknown variables', 'foreign variables', 'nothing known', 'applied leaves',
            'blocked leaves', 'inner nodes', 'points', 'unions', 'consistent leaves', 'inconsistent leaves', 'edges', 'paths', 'true descriptions',
            'false descriptions', 'nodes', 'conditioned trees', 'pruned trees', 'variable groups', 'assignments', 'messages', 'conjunctions', 'lists and sets', 'exact confidences', 'single values']
ASSUMPTIONS = ['probabilities within 1e-9 of the confidence decide nothing', 'descriptions round to three decimals']


def to_values(v, ev):
    """reference event -> internal values of a discrete variable"""
    labs = ref.labels_of(v)
    return {i for i, l in enumerate(labs) if l in ev}


def reverse(ctx, rng, w, t, mix):
    known = gen.subset(rng, [v.name for v in t.variables], 0, 4)
    user, val = gen.event(rng, w, t, known, point=bool(rng.random() < .2))
    conf = float(rng.choice([0., .01, .05, .2, .5, .9, 1.]))
    q, r = {}, rng.random()
    foreign = None
    for k, x in user.items():
        if r < .25:
            q[t.varnames[k]] = x
        elif r < .4:
            if foreign is None:
                foreign = t.copy().varnames
                ctx.count('foreign variables')
            q[foreign[k]] = x
        else:
            q[k] = x
    if rng.random() < .3:
        q['nobody knows this'] = 1
        ctx.count('unknown variables')
    if rng.random() < .2:
        rest = [v.name for v in t.variables if v.name not in user]
        if rest:
            q[rest[0]] = None
    if conf == .05 and rng.random() < .7:
        got = t.reverse(q)
    else:
        got = t.reverse(q, confidence=conf)
    got = list(got)
    if not any((k if isinstance(k, str) else k.name) in t.varnames for k in q):
        ctx.check(not got, 'leaves for a query about nothing', lambda: f'{q} returns {len(got)} leaves')
        ctx.count('nothing known')
        return
    detail = lambda: f'reverse({q}, {conf})'
    seen = {}
    for c, leaf in got:
        ctx.check(any(leaf is l for l in t.leaves.values()), 'retrieved something else than a leaf', lambda: f'{detail()}: {leaf!r}')
        ctx.check(id(leaf) not in seen, 'a leaf is retrieved twice', lambda: f'{detail()}: {leaf.idx}')
        seen[id(leaf)] = c
    for m in mix.leaves:
        p = {n: mix.leaf_p(m, {n: val[n]}) if n in val else 1. for n in m.dists}
        worst = min(p.values())
        if id(m.leaf) in seen:
            ctx.count('returned leaves')
            ctx.check(worst >= conf - 1e-9, 'a leaf below the confidence is retrieved', lambda: f'{detail()}: leaf {m.leaf.idx} with {p}')
            c = {(k if isinstance(k, str) else k.name): x for k, x in seen[id(m.leaf)].items()}
            ctx.check(set(c) == set(p), 'confidences of other variables', lambda: f'{detail()}: {sorted(c)}')
            for n in p:
                ctx.close(float(c[n]), p[n], 'confidence of a variable in a leaf differs from its probability', lambda: f'{detail()}: {n} in leaf {m.leaf.idx}', rel=1e-6, abs_=1e-7)
            if len(set(c.values())) > 1:
                ctx.count('several confidences')
        else:
            ctx.count('left out leaves')
            ctx.check(worst < conf + 1e-9, 'a leaf that reaches the confidence is not retrieved', lambda: f'{detail()}: leaf {m.leaf.idx} with {p}')
    sums = [sum(float(x) for x in c.values()) for c, _ in got]
    ctx.check(all(a >= b - 1e-9 for a, b in zip(sums, sums[1:])), 'retrieved leaves are not in descending order of confidence', lambda: f'{detail()}: {sums}')
    if got and len(got) < len(t.leaves):
        ctx.nontrivial(len(t.leaves), conf, sorted(map(str, q.items())))


def sharp(ctx, rng, t):
    """a confidence that single labels have exactly"""
    dis = [v for v in t.variables if not v.numeric]
    if not dis:
        return
    v = dis[int(rng.integers(len(dis)))]
    k = int(rng.integers(v.domain.n_values))
    lab = ref.labels_of(v)[k]
    ps = {i: float(np.asarray(l.distributions[v]._params)[k]) for i, l in t.leaves.items()}
    conf = ps[int(rng.choice(list(ps)))]
    if conf > 1 - 1e-6:     # leaves some label has for sure
        return
    got = {l.idx for _, l in t.reverse({v.name: {lab} if rng.random() < .5 else lab}, confidence=conf)}
    want = {i for i, p in ps.items() if p >= conf}
    ctx.check(got == want, 'leaves that have the confidence exactly', lambda: f'{v.name} = {lab} at {conf}: {sorted(got)} instead of {sorted(want)} of {ps}')
    ctx.count('exact confidences')


def meets(v, path, ev):
    """does the constraint of a path (value space) meet the event?"""
    if v.numeric:
        return bool([i for i in ref.intersect(path, ev) if not ref.is_empty(i)])
    return bool(path & to_values(v, ev))


def path_of(node):
    return ref.read_path(node)


def queries(ctx, rng, w, t, mix):
    names = gen.subset(rng, [v.name for v in t.variables], 1, 4)
    point = bool(rng.random() < .4)
    user, val = gen.event(rng, w, t, names, point=point)
    arg = gen.as_arg(rng, t, user)
    got = list(t.apply(arg))
    detail = lambda: f'query {user}'
    ctx.check(len({id(l) for l in got}) == len(got), 'apply() yields a leaf twice', detail)
    values = t.bind(dict(user)).value_assignment()
    labels = t.bind(dict(user))
    big = {n: dilate(e) if isinstance(e, list) else e for n, e in val.items()}
    for m in mix.leaves:
        ps = {n: meets(t.varnames[n], p, val[n]) for n, p in path_of(m.leaf).items() if n in val}
        near = borderline(t, m.leaf, val)
        inside = all(ps.values())
        if near:
            continue
        ctx.count('applied leaves' if inside else 'blocked leaves')
        # apply() looks at the constraints one by one: a leaf that only their conjunction excludes may be yielded
        if inside or not each(t, m.leaf, val):
            ctx.check(any(l is m.leaf for l in got) == inside, 'apply() misses a leaf' if inside else 'apply() yields a leaf the query excludes',
                      lambda: f'{detail()}: leaf {m.leaf.idx} with path {m.leaf.format_path()}')
        else:
            ctx.count('conjunctions')
        ctx.check(bool(m.leaf.applies(values)) == inside, 'applies() disagrees with the path', lambda: f'{detail()}: leaf {m.leaf.idx} with path {m.leaf.format_path()}')
        ctx.check(bool(m.leaf.applies(labels)) == inside, 'applies() with labels disagrees with the path', lambda: f'{detail()}: leaf {m.leaf.idx} with path {m.leaf.format_path()}')
        ctx.check(bool(m.leaf.path_consistent_with(values)) == inside, 'path_consistent_with() disagrees with the path',
                  lambda: f'{detail()}: leaf {m.leaf.idx} with path {m.leaf.format_path()}')
        p = mix.leaf_p(m, val)
        if not point and (p > 1e-9 or not all(mix.leaf_p(m, {n: big[n]}) for n in val)):
            got_p = bool(m.leaf.consistent_with(values))
            ctx.check(got_p == (p > 1e-9), 'consistent_with() disagrees with the probability of the leaf', lambda: f'{detail()}: leaf {m.leaf.idx}, P = {p}')
            ctx.count('consistent leaves' if p else 'inconsistent leaves')
    for node in t.innernodes.values():
        ps = {n: meets(t.varnames[n], p, val[n]) for n, p in path_of(node).items() if n in val}
        if borderline(t, node, val):
            continue
        ctx.count('inner nodes')
        ctx.check(bool(node.consistent_with(values)) == all(ps.values()), 'consistent_with() of an inner node disagrees with its path',
                  lambda: f'{detail()}: node {node.idx} with path {node.format_path()}')
    # single values
    scal, chosen = VariableMap(variables=t.variables), {}
    for n in names:
        v = t.varnames[n]
        if v.numeric:
            a = float(rng.choice(gen.interesting_points(rng, w, t, v)))
            mm, s = ref.affine(v)
            a = (a - mm) / s
            scal[v] = a
            chosen[n] = [(a, a, True, True)]
        else:
            labs = ref.labels_of(v)
            k = int(rng.integers(len(labs)))
            scal[v] = k
            chosen[n] = {labs[k]}
    for node in t.allnodes.values():
        p = path_of(node)
        if borderline(t, node, chosen):
            continue
        want = all(meets(t.varnames[n], p[n], chosen[n]) for n in p if n in chosen)
        f = node.path_consistent_with if isinstance(node, Leaf) else node.consistent_with
        ctx.count('points')
        ctx.check(bool(f(scal)) == want, 'consistency of single values disagrees with the path', lambda: f'{chosen}: node {node.idx} with path {node.format_path()}')
    if any(isinstance(x, RealSet) for x in values.values()):
        ctx.count('unions')


def each(t, node, val):
    """does the event meet every single constraint on the path of the node?"""
    while node.parent is not None:
        p = node.parent
        s = p.splits[[c is node for c in p.children].index(True)]
        v = p.variable
        if v.name in val and not meets(v, ref.from_numberset(s) if v.numeric else set(s), val[v.name]):
            return False
        node = p
    return True


def borderline(t, node, val):
    """an end of the event within rounding of (but not exactly at) a split"""
    for n, p in path_of(node).items():
        v = t.varnames[n]
        if n not in val or not v.numeric:
            continue
        m, s = ref.affine(v)
        es = [e for i in p for e in i[:2] if np.isfinite(e)]
        for i in val[n]:
            for e in i[:2]:
                for k in es:
                    if np.isfinite(e) and abs(e - k) <= 1e-9 * (1e-3 + abs(e) + abs(k) + abs(m / s)) and (e != k or (m, s) != (0., 1.)):
                        return True
    return False


NUM = r'-?\d+\.\d+|-?inf|-?nan'


def literal(v, text):
    """-> predicate on labels and its ends, of a printed literal"""
    n = re.escape(v.name)
    m = re.fullmatch(rf'(?:({NUM}) ([<\u2264]) )?{n}(?: ([<\u2264]) ({NUM}))?', text)
    if m:           # the name alone: no restriction
        lo = float(m.group(1)) if m.group(1) else -np.inf
        hi = float(m.group(4)) if m.group(4) else np.inf
        return lambda x: lo <= x <= hi, [lo, hi], 'range'
    if not text.startswith(v.name + ' = '):
        return None
    x = text[len(v.name) + 3:]
    if v.numeric:
        y = float(x)
        return lambda z: z == y, [y], 'point'
    return x, [], 'value'


def says(ctx, v, text, ivs, what, split=' v '):
    """the description of a numeric constraint in label space"""
    m, s = ref.affine(v)
    lits = [literal(v, x) for x in text.split(split)]
    ctx.check(all(lits), f'{what} cannot be read', lambda: repr(text))
    ends = [e * s + m for i in ivs for e in i[:2] if np.isfinite(e)]
    if not ends:
        return
    sc = max(map(abs, ends))
    span = max(ends) - min(ends) + 1
    for x in [e + d * span for e in ends for d in (-.7, -.2, -.01, .01, .2, .7)]:
        if any(abs(x - e) < 2e-3 + 1e-9 * sc for e in ends):
            continue
        want = ref.contains(ivs, (x - m) / s)
        got = any(f(x) for f, _, _ in lits)
        ctx.count('true descriptions' if want else 'false descriptions')
        ctx.check(got == want, f'{what} does not describe the constraint', lambda: f'{text!r} at {x}: {want}')


def described(ctx, rng, t):
    for node in t.innernodes.values():
        v = node.variable
        for k, s in enumerate(node.splits):
            if k >= len(node.children) or node.children[k] is None:
                continue
            text = node.str_edge(k)
            ctx.count('edges')
            if v.numeric:
                says(ctx, v, text, ref.from_numberset(s), 'the printed edge')
            elif v.symbolic:
                labs = [str(ref.labels_of(v)[i]) for i in range(v.domain.n_values)]
                sib = set(range(v.domain.n_values)) - set(s)
                ok = text == labs[next(iter(s))] if len(s) == 1 else text.startswith('\u00AC') and text[1:] in {labs[i] for i in sib}
                ctx.check(ok, 'the printed edge does not describe the constraint', lambda: f'{text!r} for {[labs[i] for i in s]}')
            else:
                labs = sorted(ref.labels_of(v)[i] for i in s)
                ctx.check(expand(text) == labs, 'the printed edge does not describe the constraint', lambda: f'{text!r} for {labs}')
    for node in t.allnodes.values():
        p = path_of(node)
        text = node.format_path()
        parts = text.split(' ^ ') if text else []
        ctx.check(len(parts) == len(p), 'the printed path has other conjuncts', lambda: f'{text!r} for {p}')
        ctx.count('paths')
        for part in parts:
            vs = [t.varnames[n] for n in p if re.search(rf'(^| ){re.escape(n)}( |$)', part)]
            ctx.check(len(vs) == 1, 'the printed path has other conjuncts', lambda: f'{text!r} for {p}')
            v = vs[0]
            if v.numeric:
                says(ctx, v, part, p[v.name], 'the printed path')
            else:
                labs = ref.labels_of(v)
                want = {f'{v.name} = {labs[i]}' for i in p[v.name]}
                ctx.check(set(re.split(rf' v (?={re.escape(v.name)} = )', part)) == want, 'the printed path does not describe the constraint', lambda: f'{part!r} for {want}')
    lines = t.pfmt().splitlines()
    nodes = list(t.allnodes.values())
    lines = [l for l in lines if l.strip()]
    ctx.check(len(lines) == len(nodes), 'the printed tree has other nodes', lambda: f'{len(lines)} lines for {len(nodes)} nodes')
    want = sorted((4 * len(list(ancestors(n))), n.idx) for n in nodes)
    have = sorted((len(l) - len(l.lstrip(' ')), int(re.search(r'#(\d+)', l).group(1))) for l in lines)
    ctx.check(have == want, 'the printed tree has other nodes', lambda: f'{have} for {want}')
    ctx.count('nodes', len(nodes))


def assignments(ctx, rng, w, t, mix):
    """Variable.str() and the messages about impossible evidence name the labels that were given"""
    user, val = gen.event(rng, w, t, gen.subset(rng, [v.name for v in t.variables], 1, 3))
    values = t.bind(dict(user)).value_assignment()
    for v, x in values.items():
        ev = val[v.name]
        text = v.str(x, fmt='logic')
        ctx.count('assignments')
        if v.numeric:
            says(ctx, v, text, ev, 'the printed assignment')
            s = v.str(x, fmt='set')
            ctx.check(s.startswith(f'{v.name} \u2208 '), 'the printed assignment cannot be read', lambda: repr(s))
            nums = sorted(float(n) for n in re.findall(r'-?\d+\.?\d*(?:e[+-]?\d+)?', s[len(v.name):]))
            m, sd = ref.affine(v)
            ends = sorted({e * sd + m for i in ev for e in (i[:2] if i[0] != i[1] else i[:1]) if np.isfinite(e)})
            ctx.check(len(nums) >= len(ends) and all(min(abs(e - n) for n in nums) <= 1e-6 * (1 + abs(e)) for e in ends),
                      'the printed assignment does not describe the constraint', lambda: f'{s!r} for {ends}')
            continue
        ctx.check(set(text.split(' v ')) == {f'{v.name} = {l}' for l in ev}, 'the printed assignment does not describe the constraint', lambda: f'{text!r} for {ev}')
        s = v.str(x, fmt='set')
        if len(ev) == 1:
            ok = s == f'{v.name} = {next(iter(ev))}'
        else:
            m = re.fullmatch(rf'{re.escape(v.name)} \u2208 {{(.*)}}', s, re.S)
            ok = bool(m)
            if ok and v.integer:
                ok = expand(m.group(1)) == sorted(ev)
            elif ok and len(ev) <= 10:
                ok = set(m.group(1).split(', ')) == {str(l) for l in ev}
        ctx.check(ok, 'the printed assignment does not describe the constraint', lambda: f'{s!r} for {ev}')
    v = t.variables[int(rng.integers(len(t.variables)))]
    other_forms(ctx, rng, w, t, v)
    if values and mix.p(val) == 0 and all(mix.leaf_p(m, val) == 0 for m in mix.leaves):
        try:
            t.infer({}, dict(user))
        except ValueError as e:
            text = str(e)
            m = re.search(r'P\((.*)\) is 0', text, re.S)
            ctx.check(bool(m), 'the message does not name the evidence', lambda: repr(text))
            parts = m.group(1).split(' ^ ')
            ctx.check(sorted(' v '.join(sorted(p.split(' v '))) for p in parts) == sorted(' v '.join(sorted(v.str(x, fmt='logic').split(' v '))) for v, x in values.items()),
                      'the message does not name the evidence', lambda: f'{text!r} for {user}')
            ctx.count('messages')


def other_forms(ctx, rng, w, t, v):
    """str() of lists, sets and single values (internal values)"""
    if v.numeric:
        m, s = ref.affine(v)
        pts = sorted({(float(x) - m) / s for x in rng.choice(gen.interesting_points(rng, w, t, v), 4)})
        if len(pts) < 4 or max(map(abs, pts)) > 1e9:
            return
        a, b, c, d = pts
        lo, hi = (None, ..., -np.inf), (None, ..., np.inf)
        pick = lambda x: x[int(rng.integers(len(x)))]
        for x, ev in [([a, c], [(a, c, True, True)]), ([pick(lo), b], [(-np.inf, b, False, True)]), ([b, pick(hi)], [(b, np.inf, True, False)]),
                      ({(a, b), (c, d)}, [(a, b, True, True), (c, d, True, True)]), ({(a, b), d}, [(a, b, True, True), (d, d, True, True)]),
                      ({ContinuousSet(a, b, EXC, EXC), (c, pick(hi))}, [(a, b, False, False), (c, np.inf, True, False)]),
                      ({a, c}, [(a, a, True, True), (c, c, True, True)])]:
            says(ctx, v, v.str(x, fmt='logic'), ev, 'the printed assignment')
            ctx.count('lists and sets')
        k = int(rng.integers(1, 6))
        text = v.str(c, fmt=pick(('set', 'logic')), precision=k)
        ctx.check(text.startswith(v.name + ' = ') and abs(float(text[len(v.name) + 3:]) - (c * s + m)) <= .51 * 10. ** -k + 1e-9 * (abs(c * s) + abs(m)),
                  'the printed value is another one', lambda: f'{text!r} for {c * s + m} with precision {k}')
        return
    labs = ref.labels_of(v)
    i = int(rng.integers(len(labs)))
    ctx.check(v.str(i) == v.str(i, fmt='logic') == f'{v.name} = {labs[i]}', 'the printed value is another one', lambda: f'{v.str(i)!r} for {labs[i]}')
    ctx.count('single values')
    if v.symbolic:
        d = v.domain
        for what, vals in (('labels', list(d.labels.values())), ('values', list(d.values.values()))):
            text = d.pfmt(labels_or_values=what, max_values=100)
            ctx.check(text == '%s = {%s}' % (d.__name__, ', '.join(map(str, vals))), 'the printed domain has other elements', lambda: f'{text!r} for {vals}')


def expand(text):
    """'1, 3...6, 9' -> [1, 3, 4, 5, 6, 9]"""
    out = []
    for x in text.split(', '):
        m = re.fullmatch(r'(-?\d+)\.\.\.(-?\d+)', x)
        if m:
            out += list(range(int(m.group(1)), int(m.group(2)) + 1))
        else:
            out.append(int(x))
    return out


def ancestors(n):
    while n.parent is not None:
        n = n.parent
        yield n


def structural(ctx, t):
    nodes = list(t.innernodes.values()) + list(t.leaves.values())
    ctx.check(len(list(t.allnodes.values())) == len(nodes) and {id(n) for n in t.allnodes.values()} == {id(n) for n in nodes}, 'allnodes are not the nodes of the tree',
              lambda: str(len(list(t.allnodes.values()))))
    if t.root is not None:
        below = list(t.root.recursive_children())
        ctx.check(len(below) == len(nodes) - 1 and {id(n) for n in below} | {id(t.root)} == {id(n) for n in nodes},
                  'recursive_children() are not the nodes below', lambda: f'{len(below)} of {len(nodes)}')
    for n in nodes:
        ctx.check(n.depth() == len(list(ancestors(n))), 'depth of a node', lambda: f'{n.idx}: {n.depth()}')
    ctx.check(t.depth() == max(len(list(ancestors(l))) for l in t.leaves.values()), 'depth of the tree', lambda: str(t.depth()))
    # groups of variables
    tg, ft = [v.name for v in t.targets], [v.name for v in t.features]
    for kind in ('numeric', 'symbolic', 'integer'):
        for group, base in (('variables', list(t.variables)), ('targets', list(t.targets)), ('features', list(t.features))):
            want = [v.name for v in base if getattr(v, kind)]
            have = [v.name for v in getattr(t, f'{kind}_{group}')]
            ctx.check(have == want, f'{kind} {group}', lambda: f'{have} instead of {want}')
    if set(tg) & set(ft):
        ctx.check(set(tg) == set(ft), 'targets and features overlap', lambda: f'{tg} {ft}')
    ctx.count('variable groups')


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng, small=True)
    ctx.note = gen.describe(w, t)
    kind = rng.random()
    if kind < .25:
        names = gen.subset(rng, [v.name for v in t.variables], 1, 2)
        user, val = gen.event(rng, w, t, names)
        if ref.Mixture(t).p(val) > 1e-6:
            c = t.conditional_jpt(t.bind(dict(user)), fail_on_unsatisfiability=False)
            if c is not None:
                t = c
                ctx.count('conditioned trees')
    elif kind < .45:
        t = t.prune(similarity_threshold=float(rng.choice([.3, .5, .7])))
        ctx.count('pruned trees')
    mix = ref.Mixture(t)
    structural(ctx, t)
    described(ctx, rng, t)
    assignments(ctx, rng, w, t, mix)
    for _ in range(3):
        reverse(ctx, rng, w, t, mix)
        sharp(ctx, rng, t)
    for _ in range(3):
        queries(ctx, rng, w, t, mix)
