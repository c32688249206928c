"""Independent reference models the monitors compare the real code with.

Sets of reals are lists of (lo, hi, lo_closed, hi_closed), normalised to be disjoint and sorted.
Probabilities of numeric distributions are computed from the bare segments of the CDF (two numbers
per segment), with right-continuous F and its left limits; nothing of jpt's own set or function
arithmetic is used.
"""
import math

import numpy as np

INF = float('inf')


# -- sets of reals --------------------------------------------------------------------------------
def is_empty(i):
    lo, hi, lc, hc = i
    return lo > hi or (lo == hi and not (lc and hc))


def normalise(ivs):
    ivs = [i for i in ivs if not is_empty(i)]
    ivs.sort(key=lambda i: (i[0], not i[2]))
    out = []
    for lo, hi, lc, hc in ivs:
        if out:
            l2, h2, lc2, hc2 = out[-1]
            if lo < h2 or (lo == h2 and (lc or hc2)):
                if hi > h2:
                    out[-1] = (l2, hi, lc2, hc)
                elif hi == h2:
                    out[-1] = (l2, h2, lc2, hc or hc2)
                continue
        out.append((lo, hi, lc, hc))
    return out


def intersect(a, b):
    out = []
    for l1, h1, lc1, hc1 in a:
        for l2, h2, lc2, hc2 in b:
            lo = max(l1, l2)
            hi = min(h1, h2)
            lc = (lc1 if l1 == lo else True) and (lc2 if l2 == lo else True)
            hc = (hc1 if h1 == hi else True) and (hc2 if h2 == hi else True)
            if not is_empty((lo, hi, lc, hc)):
                out.append((lo, hi, lc, hc))
    return normalise(out)


def complement(a):
    out = []
    lo, lc = -INF, False
    for l, h, c1, c2 in normalise(a):
        out.append((lo, l, lc, not c1))
        lo, lc = h, not c2
    out.append((lo, INF, lc, False))
    return normalise([(l, h, c1 and l > -INF, c2 and h < INF) for l, h, c1, c2 in out])


def contains(a, x):
    return any((lo < x or (lo == x and lc)) and (x < hi or (x == hi and hc)) for lo, hi, lc, hc in a)


def from_numberset(s):
    """Reads a jpt NumberSet by its public attributes."""
    from jpt.base.intervals import INC, RealSet
    if isinstance(s, RealSet):
        return normalise([x for i in s.intervals for x in raw(i)])
    return normalise(raw(s))


def raw(i):
    from jpt.base.intervals import INC
    return [(float(i.lower), float(i.upper),
             i.left == INC and i.lower > -INF, i.right == INC and i.upper < INF)]


def to_numberset(ivs):
    from jpt.base.intervals import ContinuousSet, RealSet, INC, EXC
    cs = [ContinuousSet(lo, hi, INC if lc else EXC, INC if hc else EXC) for lo, hi, lc, hc in ivs]
    return cs[0] if len(cs) == 1 else RealSet(cs)


# -- piecewise linear functions -----------------------------------------------------------------
def coeffs(f):
    """(slope, intercept) of a constant or linear jpt function."""
    n = type(f).__name__
    if n == 'ConstantFunction':
        return 0., float(f.value)
    if n == 'LinearFunction':
        return float(f.m), float(f.c)
    raise TypeError(n)


def seg_eval(f, x):
    """Evaluates a function of one segment at x (plain arithmetic in double precision)."""
    m, c = coeffs(f)
    return m * x + c if m else c


class PL:
    """A CDF: jumps and linear segments, read from the piecewise function of the real object."""

    def __init__(self, pw):
        self.segs = []
        for i, f in zip(pw.intervals, pw.functions):
            self.segs.append((float(i.lower), float(i.upper), f))

    def F(self, x):
        """right-continuous"""
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        for lo, hi, f in self.segs:
            if lo <= x < hi:
                return seg_eval(f, x)
        return seg_eval(self.segs[-1][2], x)

    def Fm(self, x):
        """left limit"""
        if x == INF:
            return 1.
        if x == -INF:
            return 0.
        for lo, hi, f in self.segs:
            if lo < x <= hi:
                return seg_eval(f, x)
        return seg_eval(self.segs[0][2], x)

    @property
    def knots(self):
        return [s[0] for s in self.segs if s[0] > -INF]

    def atoms(self, tol=1e-12):
        out = []
        for x in self.knots:
            w = self.F(x) - self.Fm(x)
            # linear segments meet up to rounding errors only
            if w > tol:
                out.append((x, w))
        return out

    def jump_tol(self):
        """rounding errors to be expected at knots: |m x| * eps"""
        t = 1e-12
        for lo, hi, f in self.segs:
            m, c = coeffs(f)
            for x in (lo, hi):
                if abs(x) < INF:
                    t = max(t, 16 * abs(m * x) * 2.3e-16, 16 * abs(c) * 2.3e-16)
        return t

    def p(self, ivs):
        tot = 0.
        for lo, hi, lc, hc in normalise(list(ivs)):
            a = self.Fm(lo) if lc else self.F(lo)
            b = self.F(hi) if hc else self.Fm(hi)
            tot += max(0., b - a)
        return tot

    def pieces(self):
        """[(lo, hi, mass)] of the continuous part and [(x, mass)] of the point masses"""
        cont = []
        for lo, hi, f in self.segs:
            m, c = coeffs(f)
            if m and lo > -INF and hi < INF:
                cont.append((lo, hi, m * (hi - lo)))
        return cont, self.atoms(self.jump_tol())

    def moment(self, order, center, tr=lambda x: x):
        """E[(tr(X) - center)^order] for affine tr"""
        cont, atoms = self.pieces()
        r = sum(w * (tr(x) - center) ** order for x, w in atoms)
        for lo, hi, w in cont:
            a, b = tr(lo) - center, tr(hi) - center
            # mean of u^n over [a, b] = sum a^k b^(n-k) / (n + 1)
            r += w * sum(a ** k * b ** (order - k) for k in range(order + 1)) / (order + 1)
        return r

    def quantile(self, q):
        """inf {x : F(x) >= q}"""
        for lo, hi, f in self.segs:
            m, c = coeffs(f)
            if lo > -INF and seg_eval(f, lo) >= q:
                return lo
            if m and hi < INF and seg_eval(f, hi) >= q:
                return (q - c) / m
        return INF


# -- label transformations ------------------------------------------------------------------------
def affine(var):
    """(values -> labels, labels -> values) of a numeric variable, from its declared scaling."""
    from jpt.distributions.univariate.numeric import ScaledNumeric
    if issubclass(var.domain, ScaledNumeric):
        return SCALING[var.domain]
    return 0., 1.


SCALING = {}     # filled by the generator: domain -> (mean, standard deviation) of the declared values


# -- trees as mixtures ----------------------------------------------------------------------------
class LeafModel:
    __slots__ = ('prior', 'dists', 'path', 'leaf')


class Mixture:
    """P(X) = sum_l prior_l prod_v P_l(X_v), read from the leaves of a tree."""

    def __init__(self, tree):
        self.tree = tree
        self.vars = list(tree.variables)
        self.leaves = []
        for leaf in tree.leaves.values():
            m = LeafModel()
            m.prior = float(leaf.prior)
            m.leaf = leaf
            m.path = read_path(leaf)
            m.dists = {}
            for v in self.vars:
                d = leaf.distributions[v]
                if v.numeric:
                    m.dists[v.name] = PL(d.cdf)
                else:
                    m.dists[v.name] = {lab: float(p) for p, lab in
                                       zip([float(x) for x in np.asarray(d._params)], labels_of(v))}
            self.leaves.append(m)

    def leaf_p(self, m, event):
        """event: {var name: list of value-space intervals | set of labels}"""
        r = 1.
        for name, ev in event.items():
            d = m.dists[name]
            if isinstance(d, PL):
                r *= d.p(ev)
            else:
                r *= sum(p for lab, p in d.items() if lab in ev)
        return r

    def p(self, event):
        return sum(m.prior * self.leaf_p(m, event) for m in self.leaves)

    def cond(self, query, evidence):
        joint = meet(query, evidence)
        pe = self.p(evidence)
        return (self.p(joint) / pe if pe else None), pe

    def weights(self, evidence):
        w = np.array([m.prior * self.leaf_p(m, evidence) for m in self.leaves])
        return w


def meet(a, b):
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif isinstance(v, list):
            out[k] = intersect(out[k], v)
        else:
            out[k] = out[k] & v
    return out


def labels_of(var):
    """labels in the order of the internal values 0, 1, .. (from the declared domain)"""
    d = var.domain
    if var.integer:
        return list(range(d.lmin, d.lmax + 1))
    return [d.labels[i] for i in range(d.n_values)]


def read_path(leaf):
    """Walks from the leaf to the root and intersects the constraints on the way.

    {var name: value-space intervals | set of internal values}; also returns variables with conflicts.
    """
    out = {}
    node = leaf
    while node.parent is not None:
        par = node.parent
        k = [c is node for c in par.children].index(True)
        s = par.splits[k]
        name = par.variable.name
        if par.variable.numeric:
            s = from_numberset(s)
            out[name] = intersect(out[name], s) if name in out else s
        else:
            s = set(s)
            out[name] = out[name] & s if name in out else s
        node = par
    return out


def pl_moment(pl, ivs, order, center, tr=lambda x: x):
    """E[(tr(X) - center)^order ; X in ivs] (not normalised) and P(X in ivs)"""
    cont, atoms = pl.pieces()
    ivs = normalise(list(ivs))
    r = mass = 0.
    for x, w in atoms:
        if contains(ivs, x):
            r += w * (tr(x) - center) ** order
            mass += w
    for lo, hi, w in cont:
        for a, b, _, _ in ivs:
            a, b = max(a, lo), min(b, hi)
            if a >= b:
                continue
            p = w * (b - a) / (hi - lo)
            u, v = tr(a) - center, tr(b) - center
            r += p * sum(u ** k * v ** (order - k) for k in range(order + 1)) / (order + 1)
            mass += p
    return r, mass


ALL = [(-INF, INF, False, False)]


def mixture_moment(mix, var, order, center, evidence):
    """label-space moment of a numeric or integer variable given evidence"""
    tot = z = 0.
    m, s = affine(var) if var.numeric else (0., 1.)
    for l in mix.leaves:
        rest = {k: v for k, v in evidence.items() if k != var.name}
        w = l.prior * mix.leaf_p(l, rest)
        if w <= 0:
            continue
        d = l.dists[var.name]
        if var.numeric:
            r, p = pl_moment(d, evidence.get(var.name, ALL), order, center, lambda x: x * s + m)
        else:
            ev = evidence.get(var.name)
            r = sum(p * (float(lab) - center) ** order for lab, p in d.items() if ev is None or lab in ev)
            p = sum(p for lab, p in d.items() if ev is None or lab in ev)
        tot += w * r
        z += w * p
    return tot / z


def leaf_density(pl, x):
    """density of the continuous part at x and whether there is mass at the point x"""
    for lo, hi, f in pl.segs:
        if lo <= x < hi:
            return coeffs(f)[0]
    return 0.


def ill_conditioned(mix, ev):
    """Whether a leaf has a mass at the level of rounding errors in some interval of the evidence.

    Such leaves may or may not be regarded as compatible with the evidence; nothing is decided about them.
    """
    for name, e in ev.items():
        if not isinstance(e, list):
            continue
        for m in mix.leaves:
            d = m.leaf.distributions[name]
            for i in e:
                if 0 < m.dists[name].p([i]) < 1e-9 or 0 < d._p(to_numberset([i])) < 1e-9:
                    return True
                for j in intersect([i], m.path.get(name, ALL)):
                    lo, hi, _, _ = j
                    if 0 < d._p(to_numberset([j])) < 1e-9:
                        return True
                    if 0 < hi - lo <= 1e-9 * (1e-3 + min(abs(lo), abs(hi))):
                        return True
    return False


def rounding(mix, ev):
    """relative error to be expected of the probability of the evidence in a leaf"""
    worst = 0.
    for m in mix.leaves:
        if not m.prior or not mix.leaf_p(m, ev):
            continue
        e = 0.
        for n, x in ev.items():
            d = m.dists[n]
            if isinstance(d, PL):
                e += 4 * d.jump_tol() / d.p(x)
        worst = max(worst, e)
    return worst
