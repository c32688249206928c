"""Canonical, comparable forms of everything jpt returns or holds (bitwise: floats by repr)."""
import types

import numpy as np

from jpt.base.functions import PiecewiseFunction
from jpt.base.intervals import ContinuousSet, RealSet
from jpt.distributions import Distribution
from jpt.trees import JPT, Leaf, DecisionNode
from jpt.variables import Variable, VariableMap


def canon(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, ContinuousSet):
        return ['I', repr(float(x.lower)), repr(float(x.upper)), int(x.left), int(x.right)]
    if isinstance(x, RealSet):
        return ['U'] + [canon(i) for i in x.intervals]
    if isinstance(x, PiecewiseFunction):
        return ['F'] + [[canon(i), fun(f)] for i, f in zip(x.intervals, x.functions)]
    if isinstance(x, Distribution):
        return dist(x)
    if isinstance(x, JPT):
        return tree(x)
    if isinstance(x, Leaf):
        return ['L', x.idx]
    if isinstance(x, Variable):
        return ['V', x.name, x.domain.__name__, canon(x.settings)]
    if isinstance(x, VariableMap):
        return [type(x).__name__] + [[v.name, canon(y)] for v, y in x.items()]
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ['S'] + sorted((canon(i) for i in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, types.GeneratorType):
        return [canon(i) for i in x]
    if type(x).__name__ in ('_memoryviewslice', 'memoryview'):
        return canon(np.asarray(x))
    if hasattr(x, 'columns') and hasattr(x, 'to_numpy'):
        return [list(map(str, x.columns)), [str(d) for d in x.dtypes], canon(list(x.index)), canon(x.to_numpy())]
    if isinstance(x, bytes):
        return x.hex()
    raise TypeError(type(x))


def fun(f):
    n = type(f).__name__
    if n == 'ConstantFunction':
        return repr(float(f.value))
    if n == 'LinearFunction':
        return [repr(float(f.m)), repr(float(f.c))]
    if n == 'QuadraticFunction':
        return [repr(float(f.a)), repr(float(f.b)), repr(float(f.c))]
    return n


def dist(d):
    r = [type(d).__name__, canon(d.settings)]
    if hasattr(d, '_quantile'):
        q = d._quantile
        r.append(canon(q.cdf) if q is not None and q.cdf is not None else None)
    else:
        r.append(canon(np.asarray(d._params)) if d._params is not None else None)
    return r


def domain(v):
    d = v.domain
    return [d.__name__, canon(dict(d.labels)) if hasattr(d.labels, 'items') else None,
            canon(dict(d.values)) if hasattr(d.values, 'items') else None]


def path(n):
    return [[v.name, canon(s)] for v, s in n._path]


def tree(t):
    return {
        'vars': [[canon(v), domain(v)] for v in t.variables],
        'varnames': [[k, v.name] for k, v in t.varnames.items()],
        'targets': [v.name for v in t.targets], 'features': [v.name for v in t.features],
        'hyper': [canon(t.min_samples_leaf), canon(t.min_impurity_improvement), canon(t.max_depth), canon(t.max_leaves)],
        'root': t.root.idx if t.root is not None else None,
        'leaves': [[i, l.idx, canon(l.prior), canon(l.samples), [int(j) for j in l.s_indices], path(l),
                    l.parent.idx if l.parent is not None else None,
                    [[v.name, dist(d)] for v, d in l.distributions.items()]] for i, l in t.leaves.items()],
        'inner': [[i, n.idx, n.variable.name, canon(n.splits), [c.idx for c in n.children], canon(n.samples), path(n),
                   n.parent.idx if n.parent is not None else None] for i, n in t.innernodes.items()],
        'priors': [[getattr(k, 'name', k), canon(d)] for k, d in t.priors.items()],
        'mindist': canon(t.minimal_distances) if isinstance(t.minimal_distances, (VariableMap, dict)) else None,
    }
