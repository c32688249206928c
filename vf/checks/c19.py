"""Interval arithmetic implements the algebra of point sets."""
import numpy as np

from jpt.base.intervals import ContinuousSet, RealSet, EMPTY, R, INC, EXC

from vf import ref

PROPERTY = 'C19'
RULE = ('Random intervals and unions of up to five intervals (open, closed, half-open, degenerate, empty, unbounded, '
        'nested, adjacent, touching, duplicated, unsorted) over a small pool of shared end points, so that ends coincide '
        'often, over continuous end points, and over large numbers (2**54, 1e18, 1e300), of which the neighbours are further apart than 1: every operation and every pair of operand types is compared with an '
        'independent set algebra on (bound, closedness) tuples and on probe points between and at all ends; chains '
        'of operations feed results back as operands; operands and the shared constants are checked for modification. '
        'Non-trivial: both operands non-empty and different.')
CASES = {'quick': 25000, 'thorough': 1000000}
REQUIRED = ['intersections', 'unions', 'differences', 'complements', 'memberships', 'containments', 'intersects', 'equalities',
            'simplifications', 'chops', 'samples', 'mirrors', 'parsed', 'chained', 'points', 'empty operands',
            'unbounded operands', 'operators', 'pairwise intersections', 'contiguity', 'sizes', 'large numbers']
ASSUMPTIONS = ['end points further apart than 1e-9, infinite ends are open']

POOL = [-3., -1., 0., .5, 1., 2., 4.]


SCALE = 1.


def bound(rng, cont):
    return SCALE * (float(rng.uniform(-4, 4)) if cont else float(rng.choice(POOL)))


def interval(rng, cont=False):
    r = rng.random()
    a, b = sorted((bound(rng, cont), bound(rng, cont)))
    lc, hc = bool(rng.random() < .5), bool(rng.random() < .5)
    if r < .1:
        b = a                                     # a point or empty
    elif r < .13:
        return ContinuousSet.emptyset()
    elif r < .16:
        return ContinuousSet.allnumbers()
    elif r < .26:
        a, lc = -np.inf, False
    elif r < .36:
        b, hc = np.inf, False
    if rng.random() < .04 and np.isfinite(a) and np.isfinite(b):
        return ContinuousSet(a, b)
    return ContinuousSet(a, b, INC if lc else EXC, INC if hc else EXC)


def numberset(rng, cont=False):
    if rng.random() < .4:
        return interval(rng, cont)
    return RealSet([interval(rng, cont) for _ in range(int(rng.choice([0, 1, 2, 3, 5], p=[.06, .14, .35, .3, .15])))])


def state(s):
    if isinstance(s, RealSet):
        return ['U'] + [state(i) for i in s.intervals]
    return [s.lower, s.upper, s.left, s.right]


def probes(*sets):
    ends = sorted({e for s in sets for i in s for e in i[:2] if np.isfinite(e)} | {0.})
    return [ends[0] - 1] + ends + [(a + b) / 2 for a, b in zip(ends, ends[1:])] + [ends[-1] + 1]


def is_set(ctx, got, want, what, mech, normal=True):
    g = ref.from_numberset(got)
    ctx.check(g == want, mech, lambda: f'{what} = {got!r} = {g}, expected {want}')
    ctx.check(bool(got) == bool(want) and got.isempty() == (not want), 'emptiness', lambda: f'{what}: {got!r}')
    if normal:
        if isinstance(got, RealSet):
            n = [x for i in got.intervals for x in ref.raw(i)]
            ctx.check(n == want, 'result is not normalised', lambda: f'{what} = {got!r}')
    ctx.check(got is not EMPTY and got is not R, 'result is a shared constant', lambda: what)
    for x in probes(g, want):
        ctx.check((x in got) == ref.contains(want, x) == bool(got.contains_value(x)), mech + ' (points)',
                  lambda: f'{x} in {got!r}, from {what}')


def unary(ctx, rng, a, ra):
    is_set(ctx, a.complement(), ref.complement(ra), f'complement {a!r}', 'wrong complement')
    ctx.count('complements')
    is_set(ctx, a.simplify(), ra, f'simplify {a!r}', 'wrong simplification')
    s = a.simplify()
    ctx.check(isinstance(s, ContinuousSet) or len(s.intervals) > 1, 'simplification of a single interval is a union',
              lambda: f'{a!r} -> {s!r}')
    ctx.count('simplifications')
    c = a.copy()
    ctx.check(type(c) is type(a) and state(c) == state(a) and c is not a, 'wrong copy', lambda: f'{a!r} -> {c!r}')
    ctx.check(not a == 1.5 and a != 'x' and a != None and a not in [1., (0, 1)], 'set equals something else', lambda: f'{a!r}')
    ctx.check(bool(a == c) and not a != c and hash(a) == hash(c), 'copy is not equal', lambda: f'{a!r}')
    m = a.xmirror()
    ctx.count('mirrors')
    is_set(ctx, m, ref.normalise([(-h, -l, hc, lc) for l, h, lc, hc in ra]), f'mirror {a!r}', 'wrong mirror image', normal=False)
    ctx.count('sizes')
    pts = sum(1 for l, h, _, _ in ra if l == h)
    want = np.inf if pts < len(ra) else float(pts)
    ctx.check(a.size() == want, 'wrong size', lambda: f'{a!r}: {a.size()}')
    if isinstance(a, ContinuousSet) and ra:
        ctx.check(a.isclosed() == (a.left == INC and a.right == INC), 'wrong closedness', lambda: f'{a!r}')
    # ends
    if ra:
        lo, hi = ra[0][0], ra[-1][1]
        if np.isfinite(lo):
            w = lo if ra[0][2] else np.nextafter(lo, np.inf)
            ctx.check(a.fst() == w and a.min == w, 'wrong minimum', lambda: f'{a!r}: {a.fst()} {a.min}')
        else:
            ctx.check(a.isninf() and a.isinf(), 'unboundedness is not recognised', lambda: f'{a!r}')
        if isinstance(a, ContinuousSet):
            if np.isfinite(hi):
                w = hi if ra[-1][3] else np.nextafter(hi, -np.inf)
                ctx.check(a.max == w and a.uppermost() == w, 'wrong maximum', lambda: f'{a!r}: {a.max}')
            else:
                ctx.check(a.ispinf() and a.isinf(), 'unboundedness is not recognised', lambda: f'{a!r}')
            ctx.check(a.isninf() == (lo == -np.inf) and a.ispinf() == (hi == np.inf), 'unboundedness is not recognised',
                      lambda: f'{a!r}')
            if np.isfinite(lo) and np.isfinite(hi):
                ctx.close(a.width, hi - lo, 'wrong width', lambda: f'{a!r}', abs_=1e-12)
        p = a.any_point()
        ctx.check(ref.contains(ra, p), 'any_point is not in the set', lambda: f'{p} in {a!r}')
        ctx.count('points')
        if all(np.isfinite(e) for i in ra for e in i[:2]):
            xs = np.asarray(a.sample(5))
            ctx.count('samples', len(xs))
            ctx.check(len(xs) == 5 and all(ref.contains(ra, x) for x in xs), 'sample is not in the set', lambda: f'{xs} in {a!r}')
            if isinstance(a, ContinuousSet):
                k = int(rng.integers(2, 6))
                xs = np.asarray(a.linspace(k))
                ctx.check(len(xs) == k and all(ref.contains(ra, x) or abs(x - lo) < 1e-9 * SCALE or abs(x - hi) < 1e-9 * SCALE for x in xs)
                          and all(x <= y for x, y in zip(xs, xs[1:])), 'wrong linspace', lambda: f'{xs} in {a!r}')
    else:
        ctx.check(np.isnan(a.fst()), 'wrong minimum of an empty set', lambda: f'{a!r}: {a.fst()}')
        try:
            a.sample(1)
        except IndexError:
            pass
        else:
            ctx.check(False, 'samples from an empty set', lambda: f'{a!r}')
    # chop
    pts = [bound(rng, rng.random() < .3) for _ in range(int(rng.integers(0, 4)))]
    if rng.random() < .3 and pts:
        pts.append(pts[0])
    parts = list(a.chop(list(pts)))
    ctx.count('chops')
    want, cuts = [], sorted(set(pts))
    for l, h, lc, hc in ra:
        for p in cuts:
            if ref.contains([(l, h, lc, hc)], p):
                want.append((l, p, lc, False))
                l, lc = p, True
        want.append((l, h, lc, hc))
    want = [i for i in want if not ref.is_empty(i)]
    got = [x for i in parts for x in ref.raw(i)]
    ctx.check(got == want, 'wrong chops', lambda: f'{a!r} at {pts}: {parts}, expected {want}')
    # text
    if isinstance(a, ContinuousSet):
        for s in (a.pfmt(notation='par'), a.pfmt(notation='sq'), str(a)):
            if s.startswith('{'):
                continue
            b = ContinuousSet.parse(s)
            ctx.count('parsed')
            ctx.check(ref.from_numberset(b) == ra, 'parsed set differs', lambda: f'{a!r} -> {s} -> {b!r}')
            ctx.check(b is not EMPTY, 'result is a shared constant', 'parse')
        d = int(rng.integers(0, 3))
        r = round(a, d)
        ctx.check(state(r) == [round(a.lower, d), round(a.upper, d), a.left, a.right], 'wrong rounding', lambda: f'{a!r} {d} {r!r}')
        for l in (INC, EXC, 0):
            for h in (INC, EXC, 0):
                if not ra or ra[0][0] == ra[0][1]:
                    continue
                b = a.boundaries(int(l), int(h))
                ctx.check((not l or b.left == l) and (not h or b.right == h), 'boundaries: wrong ends', lambda: f'{a!r} {l} {h} {b!r}')
                ctx.check(b.min == a.min and b.max == a.max, 'boundaries: other elements', lambda: f'{a!r} {l} {h} {b!r}')
    elif a.intervals and all(type(i) is ContinuousSet for i in a.intervals):
        b = RealSet([i.pfmt() for i in a.intervals if not (i.lower == i.upper and i)])
        ctx.check(ref.from_numberset(b) == ref.normalise([x for i in a.intervals if not (i.lower == i.upper and i) for x in ref.raw(i)]),
                  'parsed set differs', lambda: f'{a!r} -> {b!r}')


def binary(ctx, rng, a, ra, b, rb):
    mixed = isinstance(a, ContinuousSet) and isinstance(b, RealSet)
    inter = ref.intersect(ra, rb)
    uni = ref.normalise(ra + rb)
    diff = ref.intersect(ra, ref.complement(rb))
    what = f'{a!r}, {b!r}'
    results = []
    if mixed:
        got = a & b
        ctx.count('operators')
    else:
        got = a.intersection(b)
    ctx.count('intersections')
    is_set(ctx, got, inter, f'intersection {what}', 'wrong intersection')
    results.append((got, inter))
    if mixed:
        got = a | b
    else:
        got = a.union(b)
    ctx.count('unions')
    is_set(ctx, got, uni, f'union {what}', 'wrong union')
    results.append((got, uni))
    got = a.difference(b)
    ctx.count('differences')
    is_set(ctx, got, diff, f'difference {what}', 'wrong difference', normal=bool(rb))
    results.append((got, diff))
    if rng.random() < .3:
        ctx.count('operators')
        is_set(ctx, a & b, inter, f'{what} &', 'wrong intersection')
        is_set(ctx, a | b, uni, f'{what} |', 'wrong union')
        if isinstance(a, ContinuousSet):
            is_set(ctx, a - b, diff, f'{what} -', 'wrong difference')
    ctx.count('intersects')
    ctx.check(bool(a.intersects(b)) == bool(inter), 'intersects() is wrong', lambda: f'{what}: {a.intersects(b)}')
    ctx.check(bool(a.isdisjoint(b)) == (not inter), 'isdisjoint() is wrong', lambda: f'{what}: {a.isdisjoint(b)}')
    sub = not ref.intersect(rb, ref.complement(ra))
    # a union is compared piece by piece, so only pieces that fit in one interval are recognised unless simplified
    if ra and rb:
        s = a.simplify()
        got = s.contains_interval(b.simplify())
        ctx.count('containments')
        ctx.check(bool(got) == sub, 'containment is wrong', lambda: f'{what}: {got}')
        if isinstance(s, ContinuousSet):
            ctx.check((b.simplify() in s) == sub, 'containment is wrong (in)', lambda: f'{what}')
    ctx.count('equalities')
    eq = ra == rb
    ctx.check(bool(a == b) == eq and bool(b == a) == eq and bool(a != b) == (not eq), 'equality is wrong',
              lambda: f'{what}: {a == b} {b == a} {a != b}')
    if eq:
        ctx.check(hash(a) == hash(b), 'equal sets have different hashes', lambda: what)
    if isinstance(a, ContinuousSet) and isinstance(b, ContinuousSet) and ra and rb:
        ctx.count('contiguity')
        u = ref.normalise(ra + rb)
        want = not inter and len(u) == 1
        ctx.check(bool(a.contiguous(b)) == want == bool(b.contiguous(a)), 'contiguity is wrong', lambda: what)
        order = -1 if ra[0][0] < rb[0][0] or (ra[0][0] == rb[0][0] and ra[0][1] < rb[0][1]) else 1
        if inter:
            try:
                ContinuousSet.comparator(a, b)
            except ValueError:
                pass
            else:
                ctx.check(False, 'overlapping intervals are ordered', lambda: what)
        else:
            o = ContinuousSet.comparator(a, b)
            first = ra[0] if o < 0 else rb[0]
            other = rb[0] if o < 0 else ra[0]
            ctx.check(o != 0 and first[1] <= other[0], 'wrong order', lambda: what)
        l, r = (int(x) for x in rng.choice([0, int(INC), int(EXC)], 2))
        if inter and inter[0][0] < inter[0][1]:
            got = a.intersection(b, left=l, right=r)
            w = a.intersection(b)
            ctx.check((not l or got.left == l) and (not r or got.right == r) and got.min == w.min and got.max == w.max,
                      'intersection with given ends', lambda: f'{what} {l} {r}: {got!r}')
        if inter:
            proper = sub and ra[0][0] < rb[0][0] and rb[0][1] < ra[0][1]
            got = a.contains_interval(b, True)
            close = (ra[0][0] == rb[0][0] or ra[0][1] == rb[0][1] or ra[0][0] == -np.inf or ra[0][1] == np.inf)
            if not close:
                ctx.check(bool(got) == proper, 'proper containment is wrong', lambda: what)
    if isinstance(a, RealSet) and isinstance(b, RealSet):
        sa, sb = a.simplify(), b.simplify()
        if isinstance(sa, RealSet) and isinstance(sb, RealSet):
            got = sa.intersections(sb)
            want = sorted([x for i in sa.intervals for j in sb.intervals for x in ref.intersect(ref.raw(i), ref.raw(j))])
            ctx.count('pairwise intersections')
            ctx.check([x for i in got.intervals for x in ref.raw(i)] == want, 'wrong pairwise intersections',
                      lambda: f'{what}: {got!r}, expected {want}')
    return results


def case(ctx):
    global SCALE
    rng = ctx.rng
    SCALE = float(rng.choice([1., 2. ** 54, 1e18, 1e300], p=[.88, .04, .04, .04]))
    if SCALE > 1:
        ctx.count('large numbers')
    cont = bool(rng.random() < .25)
    a, b = numberset(rng, cont), numberset(rng, cont)
    if rng.random() < .08:
        b = RealSet([a]) if isinstance(a, ContinuousSet) and rng.random() < .5 else a.copy()
    if rng.random() < .08 and isinstance(a, RealSet):
        b = RealSet([a.intervals[i] for i in rng.permutation(len(a.intervals))])
    ra, rb = ref.from_numberset(a), ref.from_numberset(b)
    for r in (ra, rb):
        if not r:
            ctx.count('empty operands')
        elif r[0][0] == -np.inf or r[-1][1] == np.inf:
            ctx.count('unbounded operands')
    sa, sb = state(a), state(b)
    ctx.note = {'a': repr(a), 'b': repr(b)}
    unary(ctx, rng, a, ra)
    for x in probes(ra, rb):
        ctx.count('memberships')
        ctx.check((x in a) == ref.contains(ra, x) == bool(a.contains_value(x)), 'membership is wrong', lambda: f'{x} in {a!r}')
    res = binary(ctx, rng, a, ra, b, rb)
    ctx.check(state(a) == sa and state(b) == sb, 'operands are modified', lambda: f'{sa} {sb} -> {state(a)} {state(b)}')
    # results are operands again; changing results does not change operands
    if rng.random() < .5:
        c, rc = res[int(rng.integers(len(res)))]
        ctx.count('chained')
        unary(ctx, rng, c, rc)
        d, rd = (b, rb) if rng.random() < .5 else res[int(rng.integers(len(res)))]
        if rng.random() < .5:
            c, rc, d, rd = d, rd, c, rc
        binary(ctx, rng, c, rc, d, rd)
    for c, _ in res:
        for i in (c.intervals if isinstance(c, RealSet) else [c]):
            i.lower, i.upper, i.left, i.right = 7., 9., INC, INC
    ctx.check(state(a) == sa and state(b) == sb, 'results share state with operands', lambda: f'{sa} {sb} -> {state(a)} {state(b)}')
    ctx.check(state(EMPTY) == [0, 0, EXC, EXC] and state(R) == [-np.inf, np.inf, EXC, EXC], 'shared constants are modified',
              lambda: f'{EMPTY!r} {R!r}')
    if ra and rb and ra != rb:
        ctx.nontrivial(tuple(map(tuple, ra)), tuple(map(tuple, rb)))
