"""Development aid: mutation testing of the checks (never run by a check).

    mutate.py list FILE..                       mutants of files (relative to src/jpt) as JSON lines
    mutate.py run WORKDIR MUTANTS OUT CHECKS    applies the mutants one by one in a copy of /repo and runs the checks on it
"""
import ast, json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
SRC = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&')}


def py(path):
    s = open(path).read()
    t = ast.parse(s)
    lines = s.encode().split(b'\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    b = s.encode()
    pos = lambda n: off[n.lineno - 1] + n.col_offset
    end = lambda n: off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def between(a, z, old, new, line, what):
        seg = b[a:z].decode()
        m = list(re.finditer(r'(?<![<>=!\w])' + re.escape(old) + r'(?![=\w])' if not old[0].isalpha() else r'\b' + old + r'\b', seg))
        if len(m) == 1:
            m = m[0]
            out.append((a + len(seg[:m.start()].encode()), a + len(seg[:m.end()].encode()), new, line, what))

    skip = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in ('__repr__', '__str__', 'pfmt', 'plot', '_plot', 'log', 'pretty', 'format'):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                for m in ast.walk(a) if a is not None else ():
                    skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
    for n in ast.walk(t):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            between(end(n.left), pos(n.comparators[0]), SRC[o], CMP[o], n.lineno, 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(end(n.left), pos(n.right), *BIN[type(n.op)], n.lineno, 'bin')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            between(end(n.target), pos(n.value), o + '=', w + '=', n.lineno, 'aug')
        elif isinstance(n, ast.BoolOp):
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            for x, y in zip(n.values, n.values[1:]):
                between(end(x), pos(y), o, w, n.lineno, 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((pos(n), pos(n.operand), '', n.lineno, 'not'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((pos(n), pos(n.operand), '', n.lineno, 'neg'))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                out.append((pos(n), end(n), str(not v), n.lineno, 'const'))
            elif isinstance(v, (int, float)):
                out.append((pos(n), end(n), str(v + 1) if v != 1 else '0', n.lineno, 'const'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((pos(n), end(n), 'pass', n.lineno, 'stmt'))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(n, ast.AnnAssign):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                out.append((pos(n), end(n), 'pass', n.lineno, 'stmt'))
        elif isinstance(n, ast.IfExp):
            out.append((pos(n.test), end(n.test), 'True', n.lineno, 'ifexp'))
            out.append((pos(n.test), end(n.test), 'False', n.lineno, 'ifexp'))
        elif isinstance(n, ast.If):
            out.append((pos(n.test), end(n.test), 'False', n.lineno, 'if'))
            out.append((pos(n.test), end(n.test), 'True', n.lineno, 'if'))
        elif isinstance(n, (ast.Continue, ast.Break)):
            out.append((pos(n), end(n), 'pass', n.lineno, 'flow'))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ('min', 'max', 'INC', 'EXC', 'any', 'all'):
            out.append((pos(n), end(n), {'min': 'max', 'max': 'min', 'INC': 'EXC', 'EXC': 'INC', 'any': 'all', 'all': 'any'}[n.id], n.lineno, 'name'))
    return out


PYX = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=-])<(?![=<>A-Za-z])', '<='), (r'(?<![<>=-])>(?![=>])(?! \S)', '>='), (r' > ', ' >= '), (r' < ', ' <= '), (r'==', '!='), (r'!=', '=='), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \* ', ' / '), (r' / ', ' * '), (r'\bINC\b', 'EXC'), (r'\bEXC\b', 'INC'), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\bnot\b(?! in)', ''), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('),
       (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.-])-1(?![\w.])', '0'), (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'),
       (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r' \+= ', ' -= '), (r'^(\s+)(\w[\w.\[\]]*\([^()]*\))$', r'\1pass'), (r'\bNINF\b', 'PINF'), (r'\bPINF\b', 'NINF'), (r'\bcontinue$', 'pass'), (r'\bbreak$', 'pass'),
       (r'^(\s+)(el)?if .*:$', r'\1\2if False:')]


def pyx(path):
    s = open(path).read()
    out = []
    p = 0
    doc = None
    for no, line in enumerate(s.split('\n'), 1):
        code = line
        q = re.findall(r"'''|\"\"\"", line)
        inside = doc is not None
        for x in q:
            doc = None if doc == x else (x if doc is None else doc)
        st = line.strip()
        if not inside and not q and st and not st.startswith(('#', 'cdef ', 'cpdef ', 'def ', 'import', 'from', 'cimport', '@', 'raise', 'class', "'", 'logger')) and 'except' not in st and 'format' not in st:
            code = line.split('  #')[0]
            for a, r in PYX:
                for m in re.finditer(a, code):
                    if code[:m.start()].count("'") % 2:
                        continue
                    new = m.expand(r) if '\\' in r else r
                    o = len(s[:p].encode()) if False else None
                    out.append((p + m.start(), p + m.end(), new, no, a))
        elif st.startswith(('def ', 'cpdef ', 'cdef ')) and False:
            pass
        p += len(line) + 1
    return [(len(s[:a].encode()), len(s[:z].encode()), r, no, w) for a, z, r, no, w in out]


def mutants(f):
    path = '/repo/src/jpt/' + f
    base = {}
    blame = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--', path], capture_output=True, text=True).stdout.split('\n')
    raw = open(path, 'rb').read()
    for a, z, new, line, what in (py(path) if f.endswith('.py') else pyx(path)):
        seg = raw[:a] + new.encode() + raw[z:]
        if seg == raw:
            continue
        l0 = raw.count(b'\n', 0, a)
        yield {'file': f, 'a': a, 'z': z, 'new': new, 'line': line, 'what': what, 'original': 'dac1939' in blame[l0][:9],
               'old': raw[a:z].decode()[:80], 'src': raw.split(b'\n')[l0].decode().strip()[:110]}


def run(work, muts, out, plan):
    cases = {}
    for x in plan.split(','):
        c, n = x.split(':')
        cases[c] = n
    env = {**os.environ, 'JPT_REPO': work, 'VF_WORKERS': '2', 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VF_NOEVIDENCE': '1', 'VF_NOBUILD': '1'}
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['id'] for l in open(out)}
    ms = [json.loads(l) for l in open(muts)]
    for m in ms:
        mid = f'{m["file"]}:{m["a"]}:{m["new"]}'
        if mid in done:
            continue
        p = f'{work}/src/jpt/{m["file"]}'
        raw = open('/repo/src/jpt/' + m['file'], 'rb').read()
        open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['z']:])
        t0 = time.time()
        res = None
        if m['file'].endswith('.pyx'):
            r = subprocess.run(['bash', HERE + '/build.sh'], env=env, capture_output=True, text=True)
            if r.returncode:
                res = 'nobuild'
        for c, n in cases.items() if res is None else ():
            r = subprocess.run(['bash', HERE + '/run.sh', c, '--cases', n], env=env, capture_output=True, text=True)
            if 'VIOLATION' in r.stdout:
                res = c
                break
            if 'does not build' in r.stdout or 'Error' in r.stderr[-400:] and r.returncode not in (0, 3):
                res = 'nobuild'
                break
        open(p, 'wb').write(raw)
        with open(out, 'a') as fd:
            fd.write(json.dumps({'id': mid, 'caught': res, 't': round(time.time() - t0, 1), **m}) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        random.seed(7)
        for f in sys.argv[2:]:
            for m in mutants(f):
                print(json.dumps(m))
    else:
        run(*sys.argv[2:])
