"""infer() equals the mixture-of-leaves semantics."""
from vf import gen, ref

PROPERTY = 'C01'
RULE = ('Random data set (1-5 numeric/scaled/symbolic/boolean/integer columns, 5-150 rows, duplicates, constants, '
        'clusters, extreme scales) -> learned tree -> 8 (quick) or 14 (thorough) random query/evidence pairs '
        '(intervals with open/closed ends on data points, split values and knots, unions of intervals, label sets, '
        'evidence of probabilities down to 1e-30, overlapping query/evidence variables, dict/LabelAssignment/ValueAssignment arguments). A case is non-trivial '
        'if at least one pair has evidence probability > 0 and a conditional probability strictly between 0 and 1.')
CASES = {'quick': 5000, 'thorough': 40000}
REQUIRED = ['oracle evaluations', 'probabilities in (0, 1)', 'pairs with evidence', 'pairs sharing a variable',
            'interval unions', 'pairs with rare evidence']
ASSUMPTIONS = ['evidence of positive probability; trees as learned from finite data']


def case(ctx):
    rng = ctx.rng
    w, t = gen.world_tree(rng)
    ctx.note = gen.describe(w, t)
    mix = ref.Mixture(t)
    nq = 8 if ctx.tier == 'quick' else 14
    for k in range(nq + 2):
        qn = gen.subset(rng, w.names, 0 if rng.random() < .1 else 1)
        en = gen.subset(rng, w.names, 0) if rng.random() < .7 else []
        qu, qv = gen.event(rng, w, t, qn, point=True)
        eu, ev = gen.event(rng, w, t, en) if k < nq else gen.rare(rng, w, t, en)
        exp, pe = mix.cond(qv, ev)
        err = 1e-9 / max(pe, 1e-300)
        if pe < 1e-9 or k >= nq:
            err = ref.rounding(mix, ev)
            if pe < 1e-40 or err > 1e-2 or ref.ill_conditioned(mix, ev):
                ctx.count('pairs with (almost) impossible evidence')
                continue
            if pe < 1e-6:
                ctx.count('pairs with rare evidence')
        q, e = gen.as_arg(rng, t, qu), gen.as_arg(rng, t, eu)
        if not eu and rng.random() < .5:
            got = t.infer(q)
        else:
            got = t.infer(q, e)
        ctx.count('infer calls')
        if en:
            ctx.count('pairs with evidence')
        if set(qn) & set(en):
            ctx.count('pairs sharing a variable')
        if any(isinstance(x, list) and len(x) > 1 for x in list(qv.values()) + list(ev.values())):
            ctx.count('interval unions')
        ctx.close(got, exp, 'infer differs from the mixture of the leaves', query=qu, evidence=eu,
                  world=ctx.note, abs_=1e-6 + err)
        ctx.check(-1e-9 <= got <= 1 + 1e-6, 'probability out of range', repr(got), query=qu, evidence=eu)
        if 1e-6 < exp < 1 - 1e-6:
            ctx.count('probabilities in (0, 1)')
            ctx.nontrivial(len(t.leaves), round(exp, 9))
            if len(ctx.note) < 6:
                ctx.note['query'], ctx.note['evidence'], ctx.note['p'] = str(qu), str(eu), got
