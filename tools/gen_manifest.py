"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, I, F = 'src/jpt/trees.py', 'src/jpt/base/intervals.pyx', 'src/jpt/base/functions.pyx'
N, M, G = ('src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/multinomial.py',
           'src/jpt/distributions/univariate/integer.py')
Q, C, L = ('src/jpt/distributions/quantile/quantiles.pyx', 'src/jpt/distributions/quantile/cdfreg.pyx',
           'src/jpt/learning/impurity.pyx')
V, S, U, E = 'src/jpt/variables.py', 'src/jpt/sequential_trees.py', 'src/jpt/base/utils.py', 'src/jpt/inference/mpe.py'

# id, title, statement, quantifier over, quantifier text, why tests can't, files, mechanism [(name, where)]
P = [
 ('C01', 'infer() returns the exact conditional probability under the leaf mixture',
  'For every learned tree, query and evidence of positive probability, infer(query, evidence) equals P(query and '
  'evidence) / P(evidence) where P is the mixture of the leaves, each the product of its univariate distributions '
  'weighted by its prior. This holds for intervals with open or closed ends, unions of intervals, label sets, single '
  'labels, shared variables in query and evidence, and for every way of passing the assignments.',
  ['inputs', 'configurations'], 'all data sets, hyper-parameters, queries and evidence of positive probability',
  'The tests assert a few constants on one or two fixed trees and never vary interval ends, unions or shared variables.',
  [T, N, M, G, I], [('JPT.infer / JPT.apply', T), ('Numeric._p', N)]),
 ('C02', 'Answers obey the laws of probability',
  'The answers of infer() are numbers in [0, 1] and satisfy normalisation, complement, finite additivity over every '
  'partition of a variable domain, monotonicity, the chain rule, total probability and Bayes\' theorem. This holds for '
  'learned, conditioned and copied trees.',
  ['inputs', 'histories'], 'all trees and all combinations of events A, B, E with P(E) > 0',
  'A law relates several answers; tests compare single answers with constants.',
  [T, N, M, G, I], [('JPT.infer', T), ('JPT.conditional_jpt', T), ('NumberSet arithmetic', I)]),
 ('C03', 'Posteriors, expectations and moments are those of the conditional joint',
  'For evidence of positive probability, every posterior marginal assigns to every event the probability the '
  'conditional mixture assigns to it, also for the evidence variables themselves. Expectations are its means (its most '
  'probable labels for symbolic variables) and moments its moments about the given centers, in label space.',
  ['inputs'], 'all trees, evidence, variables, events, orders and centers',
  'Tests compare posteriors by eye (plots) or with constants of a single tree; evidence on variables not split on, '
  'unions and boundaries are not sampled.',
  [T, N, M, G, Q], [('JPT.posterior / expectation / moment', T), ('QuantileDistribution.crop / merge', Q)]),
 ('C04', 'A conditional tree is equivalent to the tree with the evidence',
  'conditional_jpt(e) answers every query q, every posterior and every further conditioning as the original tree does '
  'with e added to the evidence; its leaf priors form the posterior over the leaves, its leaves sum to one and carry '
  'no mass outside of e. The original tree is left unchanged and remains independent of the conditional one.',
  ['inputs', 'histories'], 'all trees, chains of evidence e1, e2, .. and queries',
  'Tests look at leaf counts and one or two probabilities of a fixed tree; chains, aliasing and pruning histories are '
  'not explored.',
  [T, N], [('JPT.conditional_jpt', T), ('JPT.copy', T), ('JPT.multiply_by_leaf_prior', T)]),
 ('C05', 'Impossible evidence is recognised consistently by every query',
  'Evidence of zero probability makes infer, posterior, expectation, mpe, kmpe and conditional_jpt signal '
  'unsatisfiability (or return None where asked not to fail), and never a number, NaN or a distribution; evidence of '
  'positive probability never does. The reasons reported are assignments of the evidence that really have no support.',
  ['inputs'], 'all trees and all evidence of exactly zero or clearly positive probability',
  'Tests try one impossible evidence on one tree; the consistency of six entry points is not compared.',
  [T, 'src/jpt/base/errors.py', N], [('fail_on_unsatisfiability', T), ('Unsatisfiability', 'src/jpt/base/errors.py')]),
 ('C06', 'Queries are pure: they change neither the tree nor their arguments',
  'Running any sequence of queries, copies, conditionings, samplings or serialisations, also concurrently in several '
  'threads, leaves the tree, its distributions and the passed assignments as they were. Every query gives the same '
  'answer before, within and after such a history.',
  ['histories', 'schedules'], 'all sequences and interleavings of read-only operations',
  'Tests run each query once on a fresh tree and do not compare the state afterwards.',
  [T, N, Q, I, V], [('copies before crop/merge', N), ('VariableAssignment copies', V)]),
 ('C07', 'MPE and k-MPE are optimal, ordered, complete and free of duplicates',
  'mpe() returns the states of maximal joint density (or mass) under the evidence and that value. kmpe(k) returns the k '
  'best distinct states per leaf-wise enumeration in descending order, starting with the MPE; the univariate mpe/k_mpe '
  'of each distribution type do the same for a single variable.',
  ['inputs'], 'all trees, evidence, k and distributions',
  'Tests fix a handful of distributions; optimality quantifies over all states.',
  [T, E, N, M, G, Q], [('MPESolver', E), ('JPT.mpe / kmpe', T), ('PiecewiseFunction.argmax', F)]),
 ('C08', 'Leaves partition the sample space and account for every training sample',
  'The path conditions of the leaves of a learned tree are disjoint and cover the whole sample space; every training '
  'sample falls into exactly one leaf, leaf sample counts add up to the size of the data, and priors are the relative '
  'counts and sum to one. encode() and apply() agree with that assignment.',
  ['inputs', 'configurations'], 'all data sets and hyper-parameters',
  'Tests check the number of leaves of a few fixed data sets.',
  [T, L], [('JPT.c45', T), ('Impurity.compute_best_split', L), ('JPT.encode', T)]),
 ('C09', 'Hyper-parameters are respected by every learned tree',
  'No leaf has fewer than min_samples_leaf samples (absolute or relative) unless the data has fewer, no branch is '
  'deeper than max_depth, splits are only made on feature variables, and no split improves impurity by less than the '
  'required minimum. Every leaf carries a distribution for every variable.',
  ['inputs', 'configurations'], 'all data sets and all combinations of the hyper-parameters',
  'Tests use two or three parameter combinations on well-behaved data.',
  [T, L], [('JPT.c45', T), ('Impurity.compute_best_split', L)]),
 ('C10', 'Every split is the impurity-optimal one',
  'The split chosen at every decision node attains the maximal impurity improvement over all admissible splits of all '
  'features, where the improvement is the weighted relative reduction of target variance and Gini impurity. A leaf is '
  'made only if no admissible split reaches the required improvement.',
  ['inputs', 'configurations'], 'all data sets, all admissible splits of all features at every node',
  'Tests check one or two splits by constants; optimality quantifies over all candidate splits.',
  [L, T], [('Impurity.compute_best_split / evaluate_variable', L)]),
 ('C11', 'Leaf distributions are the empirical distributions of their samples',
  'The distribution of a discrete variable in a leaf has exactly the relative label frequencies of the samples of that '
  'leaf. That of a numeric variable is a CDF that is fitted to the empirical CDF of those samples, spans exactly their '
  'range and meets it at all of its breakpoints; between them it never drifts by more than the mass of a segment '
  '(for regular samples, by more than the order of the configured precision).',
  ['inputs', 'configurations'], 'all samples, weights and precisions',
  'Tests fit a few fixed samples and compare with stored functions.',
  [T, M, G, N, Q, C], [('Distribution._fit', M), ('QuantileDistribution.fit', Q), ('CDFRegressor', C)]),
 ('C12', 'Views of a numeric distribution agree with each other',
  'The CDF of every numeric distribution is monotone from 0 to 1; interval probabilities are its increments (including '
  'point masses exactly when the boundary is included), the density integrates to them, the quantile function inverts '
  'it, moments and expectation are its integrals, and MPE intervals maximise the density.',
  ['inputs', 'histories'], 'all numeric distributions reachable by fitting, setting, cropping, merging and updating',
  'The agreement quantifies over all distributions and all points; tests evaluate single points.',
  [N, Q, F], [('Numeric.p/pdf/cdf/ppf/moment', N), ('QuantileDistribution', Q)]),
 ('C13', 'Cropping a distribution is conditioning',
  'For every univariate distribution D and restriction r of positive mass, crop(r) assigns to every event A the '
  'probability D(A and r) / D(r), and restricting to an impossible set is reported as unsatisfiable. The result does '
  'not depend on how r is written and D is left unchanged.',
  ['inputs', 'histories'], 'all distributions, restrictions (points, intervals, unions, label sets), crop chains',
  'Tests crop two or three fixed distributions.',
  [N, M, G, Q], [('Numeric._crop', N), ('Multinomial._crop', M), ('Integer._crop', G), ('QuantileDistribution.crop', Q)]),
 ('C14', 'Merging distributions is taking their mixture',
  'merge(distributions, weights) assigns to every event the weighted sum of the probabilities of its operands, for '
  'numeric, symbolic and integer distributions; update(d, w) does so with the documented weights. Merging is invariant '
  'under reordering of the operands and leaves them unchanged.',
  ['inputs', 'histories'], 'all numbers, kinds and overlaps of operands and all weights',
  'Tests merge two or three fixed CDFs.',
  [N, M, G, Q], [('QuantileDistribution.merge', Q), ('Numeric.merge', N), ('Multinomial.merge', M), ('Integer.merge', G)]),
 ('C15', 'Arithmetic on distributions is arithmetic of random variables',
  'The sum of integer distributions is the convolution of their probabilities on the summed domain. Adding numeric '
  'distributions convolves their CDFs (exactly at all sums of their breakpoints), including point masses; adding a '
  'constant shifts. Approximations keep mass and breakpoints, respect the number of segments and the maximal mean '
  'absolute error per segment; Jaccard similarity is the intersection over the union of densities.',
  ['inputs'], 'all operands and shifts',
  'Tests cover two fixed examples.',
  [N, G, F], [('Integer.add / __add__', G), ('Numeric.add', N), ('PiecewiseFunction.convolution', F)]),
 ('C16', 'Discrete distributions implement the declared finite distribution',
  'For symbolic, boolean and integer distributions set from or fitted to given frequencies, p of every label set is the '
  'sum of the frequencies, expectation/variance/moments, mode, k-MPE order, entropy-like measures, sampling and '
  'similarity are those of the finite distribution they represent.',
  ['inputs', 'configurations'], 'all domains, parameters, label sets and weights',
  'Tests use one three-label domain and one dice.',
  [M, G], [('Multinomial', M), ('Integer', G)]),
 ('C17', 'Labels and internal values are in bijection, whatever the binding',
  'Converting labels to values and back is the identity for single labels, sets, intervals and assignments of every '
  'variable type; label-level and value-level entry points give the same answers. Scaling is the declared affine map '
  'and preserves which ends of an interval are included.',
  ['inputs', 'configurations'], 'all variable types, domains, labels, sets and ways of binding',
  'Tests convert a few labels of one domain.',
  [V, M, G, N, T], [('label2value / value2label', M), ('LabelAssignment / ValueAssignment', V), ('JPT.bind', T)]),
 ('C18', 'Persistence round trips preserve the model',
  'A tree, distribution, variable, assignment, interval set or function restored from JSON, pickle, save/load or a copy '
  'is equal to the original and gives the same answers; storing does not change the original, and the restored object '
  'shares no mutable parts with it. This also holds for trees that were conditioned, pruned, post-processed or restored '
  'before; restored trees that were not learned yet learn the same model as the original.',
  ['inputs', 'histories'], 'all models and chains of storing, restoring and modifying',
  'Tests round-trip a few objects and mostly compare them with the ==-operator of the code itself.',
  [T, V, N, M, G, I, F, Q], [('to_json / from_json', T), ('__getstate__ / __setstate__', T), ('save / load', T)]),
 ('C19', 'Interval arithmetic implements the algebra of point sets',
  'Intersection, union, difference, complement, membership, containment, emptiness, equality, simplification and '
  'chopping of intervals and unions of intervals agree with the point sets they denote, for every combination of open, '
  'closed, degenerate, empty and unbounded operands. Results are normalised, equal sets are found equal and have equal '
  'hashes, and neither operands nor shared constants are modified.',
  ['inputs', 'histories'], 'all pairs and chains of interval sets',
  'Tests enumerate a few dozen pairs; boundary combinations of unions are not covered.',
  [I], [('ContinuousSet', I), ('RealSet', I)]),
 ('C20', 'Operations on piecewise functions are pointwise',
  'Evaluating the result of adding, subtracting, multiplying, scaling, cropping, overwriting, splitting, rounding, '
  'shifting, mirroring, convolving (step functions), differentiating, rectifying, simplifying or taking the minimum or maximum of (piecewise) '
  'functions gives at every point what the operation gives on the values (undefined where an operand is undefined); '
  'integrals are the areas, and maximisation returns exactly the points where the maximum is attained. Operands are '
  'not modified, and equal functions have equal hashes.',
  ['inputs'], 'all piecewise constant, linear and quadratic functions, and all points, breakpoints included',
  'Tests compare a few fixed functions.',
  [F], [('PiecewiseFunction', F), ('LinearFunction / ConstantFunction', F)]),
 ('C21', 'Samples come from the distribution they are drawn from',
  'Samples of a tree or a distribution lie in its support and satisfy the evidence, and their frequencies follow the '
  '(conditional) probabilities. Sampling a conditioned tree only produces samples consistent with the condition.',
  ['inputs'], 'all trees, distributions, evidence and random states',
  'Tests check that sampling runs.',
  [T, N, M, G, I, 'src/jpt/base/sampling.py'], [('JPT.sample', T), ('QuantileDistribution.sample', Q), ('wsample', 'src/jpt/base/sampling.py')]),
 ('C22', 'Likelihoods equal the joint density, row by row',
  'likelihood() returns for every row the mixture density of that row (with point masses replaced by the documented '
  'finite density), independent of the batch it is part of, the order of rows and the format of the batch; rows of the '
  'training data have positive likelihood. pdf() of a partial assignment is the density of the remaining marginal, '
  'infinite exactly at point masses and never NaN. Both are consistent with the probability of small boxes. The probability of an assignment in a single leaf is the product of the densities and probabilities of its values there.',
  ['inputs', 'configurations'], 'all trees, rows and batch formats',
  'Tests check positivity of likelihoods on the training data.',
  [T, N], [('JPT.likelihood / pdf / parallel_likelihood', T)]),
 ('C23', 'Pruning preserves mass, marginals and the partition',
  'Pruning a tree keeps the leaves a partition, the priors summing to one and the sample counts complete; every '
  'univariate marginal stays that of the unpruned mixture (with approximations: at the breakpoints that remain), and '
  'exactly the sibling leaves that meet the similarity criterion are merged, bottom-up. Closing the gaps of leaves keeps '
  'distributions normalised, moves no more than half of the mass of a sample, and leaves positive density all over the '
  'convex hull of cell and samples.',
  ['inputs', 'histories'], 'all trees and pruning criteria',
  'Tests prune one tree and count leaves.',
  [T], [('JPT.prune / JPT.postprocess_leaves', T)]),
 ('C24', 'Learning depends on the data only',
  'Learning the same data passed as data frame, rows or columns, repeatedly, concurrently in threads, or with '
  'another hash seed, gives the same tree, and so do variables inferred from a data frame; permuting rows does not change any leaf partition or distribution beyond '
  'rounding where splits are unique. The passed data and variables are not modified.',
  ['inputs', 'schedules', 'configurations'], 'all data sets, input formats, row orders and numbers of workers',
  'Tests learn in one format with one seed.',
  [T, V], [('JPT.learn / _preprocess_data', T), ('process pool', T)]),
 ('C25', 'Leaves are found and described by what holds in them',
  'reverse(query, confidence) returns exactly the leaves in which every variable takes the queried values with at least the given '
  'confidence, together with these probabilities and in descending order of their sum; variables the tree does not know are ignored. '
  'apply() yields every leaf whose path is compatible with the query and none that violates one of its constraints; applies(), '
  'path_consistent_with() and consistent_with() agree with paths and probabilities. Printed edges, paths, trees and assignments '
  'describe the constraints in label space, and depth, nodes and groups of variables those of the tree.',
  ['inputs', 'histories'], 'all trees (learned, conditioned, pruned), queries and confidences',
  'The only test of reverse() prints its result; the descriptions are never compared with what they describe.',
  [T, V, U], [('JPT.reverse / apply', T), ('Node.consistent_with / Leaf.applies', T), ('Variable.str', V), ('format_path', U)]),
 ('C26', 'Native code stays within its buffers',
  'No public operation, called with arguments of the documented types, makes the compiled extensions read or write outside of '
  'their buffers, use uninitialised or freed memory, lose an error raised inside of them, or crash the interpreter; arguments that '
  'cannot be processed (empty sets and functions, unfitted distributions, short buffers, ..) raise exceptions.',
  ['inputs', 'configurations'], 'all data shapes (single sample, single variable, constant columns, ..) and operations',
  'The extensions are compiled without bounds checks, so tests do not notice out-of-bounds accesses.',
  [L, C, Q, F, I], [('boundscheck=False memoryviews', L)]),
 ('C27', 'Sequential trees compose per-step models consistently',
  'Fitting a sequential tree learns its template from all windows of the sequences and the transition model from the '
  'relative frequencies of consecutive leaves. For a sequence of evidence of any length, independent_marginals() returns, '
  'in order of the steps, the template conditioned on the evidence of the step, its leaves weighted by their marginals in the chain '
  'of transitions and evidence (zeros are smoothed as documented); single and independent steps equal conditional trees. '
  'Impossible evidence is rejected, queries leave the model unchanged, refitting depends on the new data only.',
  ['inputs', 'histories'], 'all sequences, queries and lengths',
  'Tests use one fixed sequence.',
  [S], [('SequentialJPT', S)]),
 ('C28', 'Containers behave like the mappings and queues they stand for',
  'Variable maps and assignments behave as ordered mappings from variables (addressed by object or name) to values '
  'through any history of insertions, deletions, updates and copies; the heap always yields its minimum, the first (or with a negative increment the last) inserted one of equal items, and the '
  'utility mappings keep both directions in step.',
  ['histories'], 'all histories of operations',
  'Tests check single operations.',
  [V, U], [('VariableMap / VariableAssignment', V), ('Heap, Bimap, mapping', U)]),
]

TECH = {
 'C06': 'runtime monitoring: state snapshots around recorded query histories, also under thread interleavings',
 'C26': 'sanitizer-instrumented rebuild of the extensions (bounds checks, ASan/UBSan) under stress workloads',
 'C02': 'runtime monitoring: online checking of algebraic laws over recorded answers',
}
NOTES = {}


def main():
    checks, na, lines = [], [], []
    for pid, title, stmt, over, text, why, files, mech in P:
        assert len(title) <= 80, (pid, len(title))
        lines.append(json.dumps({
            'id': pid, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
        }))
        path = os.path.join(HERE, 'vf', 'checks', pid.lower() + '.py')
        if os.path.exists(path):
            checks.append({
                'property': pid,
                'quick_cmd': f'bash run.sh {pid}',
                'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {pid}',
                'evidence_file': f'evidence/{pid}.json',
                'technique': TECH.get(pid, 'runtime monitoring: the real code under generated workloads, watched by an '
                                           'independent reference model'),
                'level': 'exploration',
                'level_note': NOTES.get(pid, 'Holds on every execution observed (counts in the evidence file); trusts the '
                                             'reference model in vf/ref.py and the generators in vf/gen.py; nothing is '
                                             'claimed for inputs not explored.')
            })
        else:
            na.append({'property': pid, 'reason': 'no check has been built for this property'})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')


if __name__ == '__main__':
    main()
