"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# found only after the check was strengthened -> what was added
STRONGER = {
    'c05-rare-evidence': 'narrow intervals as evidence (C05 `rare`)',
    'c17-integer-variance': 'moments in value space (C17)',
    'c28-heap-index': 'heaps of other increments (C28)',
    'c27-target-index': 'templates with targets (C27)',
    'c07-bound-order': 'the search on its own with arbitrary divisors (C07 `solver`)',
    'c22-narrow-interval': 'narrow intervals in leaves (C22 `masses`)',
    'c12-ppf-edge': 'distributions set again in place (C12 `reuse`)',
    'c25-reverse-strict': 'exact confidences (C25 `sharp`)',
    'c18-pickle-cache': 'trees modified after they were stored (C18)',
    'c06-str-cache': 'series of nearly equal queries (C06 `histories`)',
    'c21-chunks': 'values of continuous parts occur once (C21 `distinct`)',
    'c02-realset-window': 'product rule on one variable (C02)',
    'c16-complement': 'impossible events are exactly 0 (C16)',
    'c20-bisect': 'functions of many pieces (C20)',
    'c22-point-interval': 'densities of single leaves (C22 `densities`)',
}
rows = ['| change | property | breaks | caught by | strengthened first |', '|---|---|---|---|---|']
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} | {STRONGER.get(d, '')} |")
p = f'{V}/DESIGN.md'
s = open(p).read()
i = s.index('## Planted bugs')
s = s[:i] + '''## Planted bugs

Each change in `seeded/<id>` was confirmed in a scratch copy to build, to pass the stable tests, to fail its demonstration and to leave the
demonstration of the unchanged tree at 0 (`tools/try_seed.py`). Beyond these, `tools/mutate.py` applied several hundred small mutations
(comparisons, constants, conditions, dropped statements) to the sources and ran the checks against each; the survivors were read one by one:
equivalent changes, error branches, dead code, plotting, the deprecated Gaussian class and CSV helpers remain.

''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
print(len(rows) - 2)
