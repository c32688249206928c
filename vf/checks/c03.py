"""posterior(), expectation() and moment() describe the marginals of P(. | evidence)."""
import numpy as np

from vf import gen, ref

PROPERTY = 'C03'
RULE = ('Random learned tree and random evidence of positive probability (intervals, unions, label sets, single points '
        'of continuous variables); posterior marginals are probed with random events and at every knot, moments of '
        'order 1-3 about random centers and expectations are compared with those of the mixture of the leaves. '
        'Non-trivial: at least two leaves are compatible with the evidence.')
CASES = {'quick': 3000, 'thorough': 40000}
REQUIRED = ['posteriors', 'posterior of evidence variables', 'moments', 'expectations', 'point evidence', 'points and events', 'rare evidence']
ASSUMPTIONS = ['single-point evidence on a continuous variable weights leaves by their density']


def check_marginal(ctx, mix, t, w, v, dist, weights, ev, tag, tol):
    """dist: posterior; weights: per leaf P(leaf | evidence)"""
    rng = ctx.rng
    if v.numeric:
        crop = ev.get(v.name, ref.ALL)
        zs = [m.dists[v.name].p(crop) for m in mix.leaves]

        def p(ivs):
            x = ref.intersect(ivs, crop)
            return sum(wt * m.dists[v.name].p(x) / z for wt, m, z in zip(weights, mix.leaves, zs) if wt > 0)

        pts = [k for m, wt in zip(mix.leaves, weights) if wt > 0 for k in m.dists[v.name].knots]
        pts += [x for i in crop for x in i[:2] if np.isfinite(x)]
        pts = list(rng.choice(pts, size=min(8, len(pts)), replace=False))
        lo, hi = min(pts), max(pts)
        pts += list(rng.uniform(lo - .1 * (hi - lo + 1e-9), hi + .1 * (hi - lo + 1e-9), 4))
        for x in pts:
            ctx.close(dist.cdf.eval(float(x)), p([(-ref.INF, float(x), False, True)]), f'{tag}: CDF of the posterior',
                      f'variable {v.name} at {x!r}', evidence=str(ev), world=ctx.note, **tol)
        for _ in range(3):
            u, val = gen.numeric_event(rng, w, t, v, point=True)
            if isinstance(u, list):
                u = ref.to_numberset([(u[0], u[1], True, True)])
            ctx.close(dist.p(u), p(val), f'{tag}: probability under the posterior', f'{v.name} in {u}',
                      evidence=str(ev), world=ctx.note, **tol)
    else:
        labs = ref.labels_of(v)
        crop = ev.get(v.name, set(labs))
        exp = dict.fromkeys(labs, 0.)
        for wt, m in zip(weights, mix.leaves):
            if wt <= 0:
                continue
            d = m.dists[v.name]
            z = sum(d[l] for l in labs if l in crop)
            for l in labs:
                if l in crop:
                    exp[l] += wt * d[l] / z
        for l in labs:
            ctx.close(dist.p({l}), exp[l], f'{tag}: probability under the posterior', f'{v.name} = {l!r}',
                      evidence=str(ev), world=ctx.note, **tol)
        k = int(rng.integers(1, len(labs) + 1))
        sub = {labs[i] for i in rng.choice(len(labs), k, replace=False)}
        ctx.close(dist.p(sub), sum(exp[l] for l in sub), f'{tag}: probability under the posterior', f'{v.name} in {sub}',
                  **tol)


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    for k in range(4):
        names = gen.subset(rng, w.names, 0, 3)
        eu, ev = gen.event(rng, w, t, names) if k < 3 else gen.rare(rng, w, t, names)
        wts = mix.weights(ev)
        pe = wts.sum()
        if pe < 1e-40:
            continue
        err = 1e-9 / pe
        if k == 3 or pe < 1e-6:
            err = ref.rounding(mix, ev)
            if err > 1e-2:
                continue
            if pe < 1e-6:
                ctx.count('rare evidence')
        wts = wts / pe
        tol = dict(rel=1e-6, abs_=1e-6 + err)
        # leaves of vanishing likelihood are subject to rounding
        if any(0 < x < 1e-9 for x in wts) or ref.ill_conditioned(mix, ev):
            ctx.count('ill-conditioned')
            continue
        names = gen.subset(rng, w.names, 1) if rng.random() < .5 else list(w.names)
        vs = [n if rng.random() < .5 else w.var(n) for n in names]
        arg = gen.as_arg(rng, t, eu)
        post = t.posterior(vs, arg) if (len(names) < len(w.names) or rng.random() < .5) else t.posterior(evidence=arg)
        ctx.count('posteriors')
        ctx.check({v.name for v in post.keys()} == set(names), 'variables of the posterior',
                  f'{[v.name for v in post.keys()]} for {names}')
        for n in names:
            if n in ev:
                ctx.count('posterior of evidence variables')
            check_marginal(ctx, mix, t, w, w.var(n), post[n], wts, ev, 'posterior', tol)
        if (wts > 1e-6).sum() > 1:
            ctx.nontrivial(len(t.leaves), round(float(pe), 9))
        # expectation
        exps = t.expectation(vs, arg)
        for n in names:
            v = w.var(n)
            if v.symbolic:
                probs = {l: 0. for l in ref.labels_of(v)}
                for wt, m in zip(wts, mix.leaves):
                    if wt > 0:
                        crop = ev.get(n, set(probs))
                        z = sum(p for l, p in m.dists[n].items() if l in crop)
                        for l in crop:
                            probs[l] += wt * m.dists[n][l] / z
                mx = max(probs.values())
                got = set(exps[n])
                sure = {l for l, p in probs.items() if p >= mx}
                near = {l for l, p in probs.items() if p >= mx - 1e-7}
                ctx.check(got <= near and got, 'expectation of symbolic variables', f'{got} not among {near}',
                          probs=str(probs))
            else:
                e = ref.mixture_moment(mix, v, 1, 0., ev)
                scale = 1. + max(abs(float(x)) for x in w.cols[n])
                ctx.close(exps[n], e, 'expectation', n, evidence=str(eu), rel=1e-6, abs_=scale * (1e-6 + err))
            ctx.count('expectations')
        # moments
        order = int(rng.integers(1, 4))
        num = [v for v in w.variables if v.numeric or v.integer]
        center, labelc = None, {}
        if num and rng.random() < .6:
            for v in num:
                if rng.random() < .7:
                    c = float(rng.choice(np.array(w.cols[v.name], dtype=float)))
                    labelc[v.name] = int(c) if v.integer else c
            if labelc:
                from jpt.variables import LabelAssignment
                center = LabelAssignment([(w.var(n), c) for n, c in labelc.items()])
                if rng.random() < .5 and not any(v.integer for v in num):
                    center = center.value_assignment()
        mom = t.moment(order, center, t.bind(dict(eu)))
        ctx.check({v.name for v in mom.keys()} == {v.name for v in num}, 'variables of the moments', '')
        for v in num:
            c = labelc.get(v.name, 0.)
            e = ref.mixture_moment(mix, v, order, c, ev)
            scale = (1. + max(abs(float(x) - c) for x in w.cols[v.name])) ** order
            ctx.close(mom[v], e, 'moment', f'{v.name} order {order} center {c}', evidence=str(eu), kinds=w.kinds,
                      rel=1e-6, abs_=scale * (1e-6 + err))
            ctx.count('moments')
    # a single point of a continuous variable as evidence
    cands = [v for v in w.variables if v.numeric]
    if cands:
        v = cands[int(rng.integers(len(cands)))]
        m, s = ref.affine(v)
        leaf = mix.leaves[int(rng.integers(len(mix.leaves)))]
        cont, atoms = leaf.dists[v.name].pieces()
        if cont and not any(l.dists[v.name].pieces()[1] for l in mix.leaves):
            lo, hi, _ = cont[int(rng.integers(len(cont)))]
            x = lo + (hi - lo) * rng.uniform(.2, .8)
            label = x * s + m
            x = (label - m) / s
            dens = np.array([ref.leaf_density(l.dists[v.name], x) for l in mix.leaves])
            others = [u for u in w.variables if u is not v]
            eu, ev = gen.event(rng, w, t, gen.subset(rng, [u.name for u in others], 0, 2)) if others and rng.random() < .5 else ({}, {})
            wts = np.array([l.prior * mix.leaf_p(l, ev) for l in mix.leaves]) * dens
            if wts.sum() > 0 and np.all((wts == 0) | (wts > 1e-9 * wts.sum())) and not (ev and (ref.ill_conditioned(mix, ev) or mix.p(ev) < 1e-6)):
                wts /= wts.sum()
                items = list({v.name: label, **eu}.items())
                arg = dict(items[::-1] if rng.random() < .5 else items)
                post = t.posterior(evidence=arg)
                ctx.count('point evidence')
                ctx.count('points and events', int(bool(ev)))
                for u in others:
                    check_marginal(ctx, mix, t, w, u, post[u], wts, ev, 'posterior given a point', dict(rel=1e-6, abs_=1e-6))
                ctx.close(post[v].p(label), 1, 'posterior of a variable that is given is not an impulse', lambda: f'{v.name} = {label}', abs_=1e-6)
                ctx.close(post[v].expectation(), label, 'posterior of a variable that is given is not an impulse', lambda: f'{v.name} = {label}', rel=1e-6, abs_=1e-6 * (s + abs(m)))
