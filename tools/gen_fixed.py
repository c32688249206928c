"""Lists the fix: commits of /repo in known_findings.json (run by hand after a fix; never by a check)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# message fragment -> property
MAP = [('VariableMap.copy', 'C28'), ('variable settings are lost', 'C18'), ('numeric distribution to a single value', 'C13'),
       ('sampling from a distribution with point', 'C21'), ('whether point masses on their boundaries', 'C12'),
       ('moments of numeric', 'C12'), ('to a RealSet disregards', 'C13'), ('cropping a CDF with point', 'C13'),
       ('drops point masses of CDFs', 'C14'), ('wide value ranges yields', 'C14'), ('PPF of distributions', 'C12'),
       ('quantiles of distributions on wide', 'C12'), ('k-MPE states of numeric', 'C07'), ('equal to their prefixes', 'C20'),
       ('k-MPE fails', 'C07'), ('k-MPE of a tree', 'C07'), ('dependency of query and evidence', 'C01'),
       ('posteriors of evidence variables', 'C03'), ('densities and probabilities', 'C03'),
       ('below decision nodes with a single child', 'C04'), ('samples at the split value', 'C08'),
       ('RealSet.to_json()', 'C18'), ('JPT.moment()', 'C03'), ('MPE of numeric distributions', 'C07'),
       ('RealSet.simplify()', 'C19'), ('error messages about unsat', 'C05'), ('splits on symbolic', 'C08'),
       ('learning crashes', 'C26'), ('Gini impurity', 'C10'), ('difference of intervals', 'C19'),
       ('cropping to a RealSet fails', 'C13')]
EXTRA = os.path.join(HERE, 'tools', 'fixed_map.json')
if os.path.exists(EXTRA):
    MAP += [tuple(x) for x in json.load(open(EXTRA))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
k = json.load(open(os.path.join(HERE, 'known_findings.json')))
k['fixed'] = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [p for f, p in MAP if f in s]
    assert p, s
    k['fixed'].append(f'fixed: property={p[-1]} {h} {s}')
json.dump(k, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(k['fixed']))
