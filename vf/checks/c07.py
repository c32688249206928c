"""MPE and k-MPE: optimal, ordered, complete, without duplicates."""
import itertools

import numpy as np

from jpt.inference import MPESolver
from jpt.variables import VariableMap

from vf import gen, ref

PROPERTY = 'C07'
RULE = ('Random learned tree. (a) every leaf distribution and crops/merges of them: mpe()/k_mpe(k) against the exact list '
        'of distinct densities (probabilities) and the sets on which they are attained; (b) mpe(evidence) against the '
        'maximum over all leaves of prior times the maximal densities inside of the evidence; (c) kmpe(evidence, k) '
        'against the sorted list of all combinations of per-variable areas of all leaves. Distributions that mix '
        'densities and point masses have no density maximum and are only checked for termination. Non-trivial: more '
        'than one leaf, or more than three solutions, entering (b) or (c).')
CASES = {'quick': 2000, 'thorough': 25000}
REQUIRED = ['univariate k-MPE', 'tree MPE', 'tree k-MPE', 'complete enumerations', 'with evidence', 'searches of the solver']
ASSUMPTIONS = ['evidence of positive probability without single points of continuous variables']


def modes(d, crop=None):
    """[(density, set)] in descending order; None if there are densities and point masses"""
    if isinstance(d, ref.PL):
        cont, atoms = d.pieces()
        z = 1.
        if crop is not None:
            z = d.p(crop)
            atoms = [(x, w) for x, w in atoms if ref.contains(crop, x)]
        by = {}
        for lo, hi, f in d.segs:
            m, _ = ref.coeffs(f)
            if not m or lo == -ref.INF or hi == ref.INF:
                continue
            piece = [(lo, hi, True, False)]
            if crop is not None:
                piece = [p for p in ref.intersect(piece, crop) if p[0] < p[1]]
            if piece:
                by.setdefault(m / z, []).extend(piece)
        if atoms and by:
            return None
        if not by:
            return [(ref.INF, [(x, x, True, True) for x, _ in atoms])]
        return [(m, ref.normalise(by[m])) for m in sorted(by, reverse=True)]
    z = 1.
    items = d.items()
    if crop is not None:
        items = [(l, p) for l, p in items if l in crop]
        z = sum(p for _, p in items)
    by = {}
    for l, p in items:
        if p:
            by.setdefault(p, set()).add(l)
    return [(p / z, by[p]) for p in sorted(by, reverse=True)]


def ambiguous(ms):
    """densities that are equal up to rounding"""
    return any(a[0] < np.inf and (a[0] - b[0]) <= 1e-6 * a[0] for a, b in zip(ms, ms[1:]))


def same_set(a, b, tol):
    def join(x):
        out = []
        for lo, hi, _, _ in ref.normalise(x):
            if out and lo - out[-1][1] <= tol:
                out[-1][1] = hi
            else:
                out.append([lo, hi])
        return out
    a, b = join(a), join(b)
    return len(a) == len(b) and all(abs(x - y) <= tol for p, q in zip(a, b) for x, y in zip(p, q))


def check_state(ctx, v, got, want, what, tol_scale, **detail):
    """got: user-level state of a variable; want: reference set"""
    if v.numeric:
        m, s = ref.affine(v)
        g = ref.from_numberset(got)
        exp = [(a * s + m, b * s + m, x, y) for a, b, x, y in want]
        tol = 1e-9 * tol_scale
        return same_set(g, exp, tol)
    g = set(got) if isinstance(got, (set, frozenset)) else {got}
    return g == want


def univariate(ctx, v, d, pl, tag):
    rng = ctx.rng
    ms = modes(pl)
    scale = 1.
    if v.numeric:
        m, s = ref.affine(v)
        ks = [abs(x * s + m) for x in pl.knots]
        scale = 1. + max(ks)
    k = int(rng.integers(1, 5))
    got = list(d.k_mpe(k) if rng.random() < .7 else d.k_mpe()[:k])
    state, best = d.mpe()
    ctx.count('univariate k-MPE')
    if ms is None:
        ctx.count('densities and point masses')
        return
    ctx.check(len(got) == min(k, len(ms)), f'{tag}: number of k-MPE states', f'{len(got)} of {len(ms)} for k={k}',
              dist=str(got), expected=str(ms[:k]))
    for i, ((st, lik), (m_, s_)) in enumerate(zip(got, ms)):
        ctx.check(lik == m_ or abs(lik - m_) <= 1e-9 * m_, f'{tag}: likelihood of the k-MPE state',
                  f'#{i}: {lik!r} instead of {m_!r}', variable=v.name)
        ctx.check(check_state(ctx, v, st, s_, tag, scale), f'{tag}: k-MPE state', f'#{i}: {st} instead of {s_}',
                  variable=v.name, kind=type(d).__name__)
    ctx.check(best == ms[0][0] or abs(best - ms[0][0]) <= 1e-9 * best, f'{tag}: likelihood of the MPE',
              f'{best} instead of {ms[0][0]}')
    ctx.check(check_state(ctx, v, state, ms[0][1], tag, scale), f'{tag}: MPE state', f'{state} instead of {ms[0][1]}',
              kind=type(d).__name__)


def model(d, v):
    if v.numeric:
        return ref.PL(d.cdf)
    return dict(zip(ref.labels_of(v), [float(x) for x in np.asarray(d._params)]))


def solver(ctx, rng, w, m):
    """the search on its own: the result does not depend on how likelihoods are scaled to costs"""
    names = gen.subset(rng, w.names, 1, len(w.names))
    ms = {n: modes(m.dists[n]) for n in names}
    if any(x is None or np.isinf(x[0][0]) for x in ms.values()):
        return
    total = int(np.prod([len(x) for x in ms.values()]))
    if total > 1500:
        return
    by = {v.name: v for v in w.variables}
    dists = VariableMap({by[n]: m.leaf.distributions[by[n]] for n in names})
    div = None if rng.random() < .2 else float(10 ** rng.uniform(-3, 3))
    k = 0 if total < 200 else 40
    sols = list(MPESolver(dists, likelihood_divisor=div).solve(k))
    ctx.count('searches of the solver')
    exp = sorted([float(np.prod([c[0] for c in combo])) for combo in itertools.product(*ms.values())], reverse=True)
    ctx.check(len(sols) == (min(k, total) if k else total), 'number of solutions of the search', lambda: f'{len(sols)} of {total} for k={k}')
    for j, (_, l) in enumerate(sols):
        ctx.close(l, exp[j], 'likelihood of the solutions of the search', lambda: f'#{j} of {total}, divisor {div}', rel=1e-6, abs_=0)
    full = [tuple(tuple(ref.from_numberset(s[by[n]])) if by[n].numeric else frozenset(s[by[n]]) for n in names) for s, _ in sols]
    ctx.check(len(set(full)) == len(full), 'a solution of the search is repeated', lambda: str(full[:6]))


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng, nvars=int(rng.integers(1, 5)))
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    scale = {v.name: 1. + (max(abs(float(x)) for x in w.cols[v.name]) if v.numeric else 0) for v in w.variables}
    for _ in range(4):
        v = w.variables[int(rng.integers(len(w.variables)))]
        m = mix.leaves[int(rng.integers(len(mix.leaves)))]
        d = m.leaf.distributions[v]
        univariate(ctx, v, d, m.dists[v.name], 'fitted')
        if rng.random() < .4:
            o = mix.leaves[int(rng.integers(len(mix.leaves)))].leaf.distributions[v]
            d2 = v.domain.merge([d, o], [.25, .75])
            univariate(ctx, v, d2, model(d2, v), 'merged')

    solver(ctx, rng, w, mix.leaves[int(rng.integers(len(mix.leaves)))])
    for trial in range(2):
        eu, ev = gen.event(rng, w, t, gen.subset(rng, w.names, 0, 2)) if rng.random() < .7 else ({}, {})
        pe = mix.p(ev)
        if pe < 1e-5 or ref.ill_conditioned(mix, ev):
            continue
        wts = mix.weights(ev) / pe
        if any(0 < x < 1e-7 for x in wts):
            continue
        if ev:
            ctx.count('with evidence')
        leaves, ok = [], True
        for m, wt in zip(mix.leaves, wts):
            if wt == 0:
                continue
            ms = {}
            for v in w.variables:
                ms[v.name] = modes(m.dists[v.name], ev.get(v.name))
                if ms[v.name] is None or (ev and ambiguous(ms[v.name])):
                    ok = False
                elif v.numeric and v.name in ev and any(
                        b - a < 1e-5 * (abs(a) + abs(b)) for _, p in ms[v.name] for a, b, _, _ in p if ms[v.name][0][0] < np.inf):
                    ok = False      # slopes of tiny intervals are subject to rounding
                elif v.numeric and v.name in ev and (
                        any(len(p) > 1 for d, p in ms[v.name] if d < np.inf)
                        or len(getattr(eu[v.name], 'intervals', ())) > 1):
                    ok = False      # areas of the same density may differ by rounding after cropping
            leaves.append((m, wt, ms))
        # -- MPE
        states, lik = t.mpe(gen.as_arg(rng, t, eu))
        ctx.count('tree MPE')
        ctx.check(len(states) > 0 and lik > 0, 'no MPE', f'{states} {lik}')
        if not ok:
            ctx.count('ambiguous densities')
            continue
        best = []
        for m, wt, ms in leaves:
            r = wt
            for v in w.variables:
                top = ms[v.name][0][0]
                if np.isinf(top):
                    top = float(t.minimal_distances[v])
                r *= top
            best.append(r)
        mx = max(best)
        ctx.close(lik, mx, 'likelihood of the MPE', rel=1e-6, abs_=0, evidence=str(eu), world=ctx.note)
        near = [i for i, b in enumerate(best) if b >= mx * (1 - 1e-9)]
        used = set()
        for st in states:
            ctx.check({v.name for v in st.keys()} == set(w.names), 'MPE does not assign all variables', str(st))
            hits = [i for i in near if i not in used and all(
                check_state(ctx, v, st[v], leaves[i][2][v.name][0][1], '', scale[v.name]) for v in w.variables)]
            ctx.check(hits, 'MPE state is not the maximum of any leaf', f'{st}', evidence=str(eu), world=ctx.note,
                      expected=str([{n: x[0] for n, x in leaves[i][2].items()} for i in near])[:800])
            used.add(hits[0])
        exact = [i for i in near if best[i] == mx]
        if len(leaves) == 1 or all(b < mx * (1 - 1e-6) for i, b in enumerate(best) if i not in exact):
            ctx.check(len(states) >= 1 and len(states) <= len(near), 'number of MPE states',
                      f'{len(states)} of {len(near)}')
            if len(near) == 1:
                ctx.count('unique maxima')
        c = t.conditional_jpt(gen.as_arg(rng, t, eu))
        liks = [l.mpe(t.minimal_distances)[1] for l in c.leaves.values()]
        ctx.check(len(states) >= sum(l == max(liks) for l in liks), 'MPE states of equally likely leaves are missing',
                  f'{len(states)} states, likelihoods {sorted(liks)[-4:]}', world=ctx.note)
        ctx.count('equally likely leaves', int(sum(l == max(liks) for l in liks) > 1))
        if len(leaves) > 1:
            ctx.nontrivial('mpe', len(leaves), round(float(np.log(mx)), 6))
        # -- k-MPE
        total = sum(np.prod([len(ms[v.name]) for v in w.variables]) for _, _, ms in leaves)
        if total > 4000 or any(np.isinf(x[0]) for _, _, ms in leaves for l in ms.values() for x in l):
            k = 3
            sols = list(t.kmpe(gen.as_arg(rng, t, eu), k=k)) if total < 1e6 else []
            ctx.check(len(sols) == min(k, total) or not sols, 'number of k-MPE solutions', f'{len(sols)} of {total}')
            ctx.count('k-MPE with point masses' if total <= 4000 else 'k-MPE not enumerated')
            continue
        exp = []
        for i, (m, wt, ms) in enumerate(leaves):
            for combo in itertools.product(*[ms[v.name] for v in w.variables]):
                exp.append((float(wt * np.prod([c[0] for c in combo])), i, [c[1] for c in combo]))
        exp.sort(key=lambda e: -e[0])
        k = int(rng.choice([0, 1, 2, 5, 20])) if total <= 600 else int(rng.choice([1, 2, 5]))
        sols = list(t.kmpe(gen.as_arg(rng, t, eu), k=k))
        ctx.count('tree k-MPE')
        if not k:
            ctx.count('complete enumerations')
        want = total if not k else min(k, total)
        ctx.check(len(sols) == want, 'number of k-MPE solutions', f'{len(sols)} instead of {want}', evidence=str(eu),
                  world=ctx.note)
        last = np.inf
        seen = set()
        for j, (st, l) in enumerate(sols):
            ctx.check(l <= last * (1 + 1e-7), 'k-MPE solutions are not ordered', f'#{j}: {l} after {last}',
                      evidence=str(eu), world=ctx.note)
            last = l
            ctx.close(l, exp[j][0], 'likelihood of k-MPE solutions', f'#{j} of {len(exp)}', rel=1e-6, abs_=0,
                      evidence=str(eu), world=ctx.note)
            cands = [c for c, e in enumerate(exp) if c not in seen and abs(e[0] - l) <= 1e-6 * l]
            hit = next((c for c in cands if all(check_state(ctx, v, st[v], s, '', scale[v.name])
                                                for v, s in zip(w.variables, exp[c][2]))), None)
            ctx.check(hit is not None, 'k-MPE solution is repeated or not a combination of areas', f'#{j}: {st} ({l})',
                      evidence=str(eu), world=ctx.note,
                      expected=str([exp[c] for c in cands][:4])[:900])
            seen.add(hit)
        if len(sols) > 3:
            ctx.nontrivial('kmpe', total, round(float(np.log(last)), 6))
