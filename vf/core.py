"""Harness: runs the cases of a check in worker processes, watches them and decides.

A check module provides

    PROPERTY   the id
    RULE       how cases are made and what makes one non-trivial
    CASES      {'quick': n, 'thorough': n}
    REQUIRED   counters that must not be zero (a run that observed nothing is inconclusive)
    case(ctx)  one case; uses ctx.rng, ctx.i; raises Violation via ctx.check(..)

Verdicts: violated (exit 1 + VIOLATION line), held on what was explored (exit 0),
inconclusive (exit 3).  Time limits used as verdicts are CPU time of the case, never wall clock.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

CPU_LIMIT = 90.           # CPU seconds one case may take (typical cases take milliseconds)
MEM_LIMIT = 6 << 30       # address space of a worker
WORKERS = 6


class Violation(Exception):
    """The property does not hold; ``mech`` names what fails, independent of random values."""

    def __init__(self, mech, msg, **detail):
        super().__init__(f'{mech}: {msg}')
        self.mech, self.msg, self.detail = mech, msg, detail


class Skip(Exception):
    """The case does not satisfy the precondition of the property."""


def jsonable(o, depth=0):
    if depth > 6:
        return str(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, (bool, int, str)) or o is None:
        return o if not isinstance(o, str) else o[:2000]
    if isinstance(o, (float, np.floating)):
        return float(o) if np.isfinite(o) else str(float(o))
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1)
    return str(o)[:500]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.i = None
        self.rng = None
        self.note = None
        self.findings = collections.Counter()
        self.pending = []

    def begin(self, i):
        self.i = i
        h = int.from_bytes(hashlib.sha256(f'{self.prop}/{self.seed}/{i}'.encode()).digest()[:8], 'little')
        self.rng = np.random.default_rng(h)
        np.random.seed(h % (1 << 32))
        random.seed(h)
        self.note = {}
        self.sig = []
        self.trivial = True
        self.pending = []

    # -- monitoring ------------------------------------------------------------------------------
    def count(self, key, n=1):
        self.counters[key] += n

    def check(self, cond, mech, msg='', **detail):
        """One evaluation of the oracle."""
        self.counters['oracle evaluations'] += 1
        if not cond:
            raise Violation(mech, msg() if callable(msg) else msg, **detail)

    def close(self, a, b, mech, msg='', rel=1e-6, abs_=1e-7, **detail):
        a, b = float(a), float(b)
        ok = (a == b) or (np.isfinite(a) and np.isfinite(b) and abs(a - b) <= abs_ + rel * max(abs(a), abs(b)))
        self.counters['oracle evaluations'] += 1
        if not ok:
            raise Violation(mech, f'{msg() if callable(msg) else msg} observed {a!r}, expected {b!r}', **detail)

    def nontrivial(self, *sig):
        """Marks the case as non-trivial; ``sig`` identifies it among the others."""
        self.trivial = False
        self.sig.append(sig)

    def soft(self, mech, msg, **detail):
        """Records a violation and goes on with the case (used where further oracles should run)."""
        self.pending.append(Violation(mech, msg, **detail))


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {k['mechanism']: k for k in data.get('known', []) if k['property'] == prop}


def run_case(mod, ctx, i):
    """Returns a list of Violations."""
    ctx.begin(i)
    try:
        mod.case(ctx)
    except Skip as e:
        ctx.counters['skipped: %s' % (str(e) or 'precondition')] += 1
        return list(ctx.pending)
    except Violation as v:
        v.detail.setdefault('trace', traceback.format_exc().splitlines()[-8:])
        return ctx.pending + [v]
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if f'{os.sep}jpt{os.sep}' in f.filename or '.pyx' in f.filename]
        own = [f for f in tb if f'{os.sep}vf{os.sep}' in f.filename]
        where = inner[-1].name if inner else (own[-1].name if own else '?')
        return ctx.pending + [Violation(
            f'exception/{type(e).__name__}/{where}',
            f'{type(e).__name__}: {str(e)[:300]}',
            trace=traceback.format_exc().splitlines()[-14:]
        )]
    if not ctx.trivial:
        ctx.distinct.add(hashlib.md5(repr(ctx.sig).encode()).hexdigest()[:16])
        ctx.counters['non-trivial cases'] += 1
        if len(ctx.samples) < 2:
            ctx.samples.append(jsonable({'case': i, **(ctx.note or {}), 'signature': ctx.sig}))
    return list(ctx.pending)


def worker(mod, ctx, indices, wfd, deadline):
    limit = getattr(mod, 'MEM_LIMIT', MEM_LIMIT)
    if limit:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = os.fdopen(wfd, 'w', buffering=1)
    done = 0
    for i in indices:
        if time.time() > deadline:
            break
        out.write(json.dumps({'start': int(i), 'cpu': time.process_time()}) + '\n')
        vs = run_case(mod, ctx, i)
        done += 1
        for v in vs:
            out.write(json.dumps({
                'violation': {'mech': v.mech, 'msg': str(v.msg)[:1500], 'detail': jsonable(v.detail),
                              'note': jsonable(ctx.note), 'case': int(i)}
            }) + '\n')
    out.write(json.dumps({
        'end': done,
        'counters': dict(ctx.counters),
        'distinct': sorted(ctx.distinct),
        'samples': ctx.samples
    }) + '\n')
    out.close()


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return None


def run(prop, argv):
    import select
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(f'vf.checks.{prop.lower()}')
    known = load_known(prop)
    only = None
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            r = json.load(f)
        only, seed, tier = [r['case']], r['seed'], r['tier']
    if '--only' in argv:
        only = [int(argv[argv.index('--only') + 1])]
    n = mod.CASES[tier]
    if '--cases' in argv:
        n = int(argv[argv.index('--cases') + 1])
    cases = only if only is not None else list(range(n))
    os.environ['VERIF_TIER'] = tier

    ctx0 = Ctx(prop, tier, seed)
    if hasattr(mod, 'setup'):
        mod.setup(ctx0)

    deadline = t0 + (480 if tier == 'quick' else 3000)
    w = max(1, min(int(os.environ.get('VF_WORKERS') or getattr(mod, 'WORKERS', WORKERS)), len(cases)))
    cpu_limit = getattr(mod, 'CPU_LIMIT', CPU_LIMIT)
    procs = {}
    for k in range(w):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for q in procs.values():
                    os.close(q['fd'])
                worker(mod, Ctx(prop, tier, seed), cases[k::w], wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 77
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        procs[pid] = {'fd': r, 'buf': b'', 'case': None, 'cpu': 0., 'ended': False, 'todo': cases[k::w]}

    counters, distinct, samples = collections.Counter(ctx0.counters), set(), []
    violations, done, problems = [], 0, []
    stop = False
    fd2pid = {p['fd']: pid for pid, p in procs.items()}

    def record(v):
        violations.append(v)

    while fd2pid:
        ready, _, _ = select.select(list(fd2pid), [], [], .5)
        for fd in ready:
            pid = fd2pid[fd]
            p = procs[pid]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                del fd2pid[fd]
                _, status = os.waitpid(pid, 0)
                if not p['ended'] and not stop:
                    if p.get('killed'):
                        pass
                    elif os.WIFSIGNALED(status):
                        record({'mech': f'crash/{signal.Signals(os.WTERMSIG(status)).name}',
                                'msg': f'the interpreter died with {signal.Signals(os.WTERMSIG(status)).name}',
                                'case': p['case'], 'detail': {}, 'note': {}})
                    else:
                        problems.append(f'worker ended with status {status} at case {p["case"]}')
                continue
            p['buf'] += chunk
            *lines, p['buf'] = p['buf'].split(b'\n')
            for line in lines:
                m = json.loads(line)
                if 'start' in m:
                    p['case'], p['cpu'] = m['start'], m['cpu']
                elif 'violation' in m:
                    record(m['violation'])
                elif 'end' in m:
                    p['ended'] = True
                    done += m['end']
                    counters.update(m['counters'])
                    distinct.update(m['distinct'])
                    samples.extend(m['samples'])
        # bounded progress: CPU time of the running case
        for fd, pid in list(fd2pid.items()):
            p = procs[pid]
            cpu = cpu_of(pid)
            if cpu is not None and p['case'] is not None and not p['ended'] and cpu - p['cpu'] > cpu_limit and not p.get('killed'):
                p['killed'] = True
                record({'mech': 'no termination', 'msg': f'case used more than {cpu_limit} s of CPU time',
                        'case': p['case'], 'detail': {}, 'note': {}})
                os.kill(pid, signal.SIGKILL)
        if any(v['mech'] not in known for v in violations) and not stop and '--all' not in argv:
            stop = True
            for pid in fd2pid.values():
                os.kill(pid, signal.SIGKILL)
        if time.time() > deadline + 240 and not stop:
            problems.append('wall-clock watchdog fired')
            stop = True
            for pid in fd2pid.values():
                os.kill(pid, signal.SIGKILL)

    if hasattr(mod, 'finish') and not stop and only is None:
        fctx = Ctx(prop, tier, seed)
        fctx.counters = counters
        try:
            mod.finish(fctx)
        except Violation as v:
            record({'mech': v.mech, 'msg': v.msg, 'detail': jsonable(v.detail), 'note': {}, 'case': -1})

    new = [v for v in violations if v['mech'] not in known]
    old = [v for v in violations if v['mech'] in known]
    for mech, k in sorted(known.items()):
        if any(v['mech'] == mech for v in old):
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    counters['known findings observed'] += len(old)

    if '--all' in argv:
        hist = collections.Counter(v['mech'] for v in new)
        for m, c in hist.most_common():
            ex = next(v for v in new if v['mech'] == m)
            print(f'{c:6d} {m}: case {ex["case"]}: {ex["msg"][:400]}')

    # -- evidence ---------------------------------------------------------------------------------
    reached = [k for k in getattr(mod, 'REQUIRED', ['oracle evaluations']) if not counters.get(k)]
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(distinct),
            'rule': mod.RULE,
            'samples': samples[:8],
            'cases_requested': len(cases),
            'monitor_events': {k: int(v) for k, v in sorted(counters.items())},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new)
    }
    if only is None and not os.environ.get('VF_NOEVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', f'{prop}.json'))

    if new:
        v = min(new, key=lambda v: v['case'] if v['case'] is not None else 1 << 60)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{prop}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, **v,
                       'replay': f'bash run.sh {prop} --replay {path}'}, f, indent=1)
        print(f'  {v["mech"]}: {v["msg"]}')
        for k, d in (v.get('detail') or {}).items():
            if k != 'trace':
                print(f'    {k}: {str(d)[:600]}')
        for line in (v.get('detail') or {}).get('trace', []):
            print('    | ' + line)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if problems:
        print('INCONCLUSIVE:', '; '.join(problems))
        return 3
    if reached and only is None:
        print('INCONCLUSIVE: monitors never reached:', ', '.join(reached))
        return 3
    print(f'{prop} {tier} seed={seed}: held on {done} cases ({len(distinct)} distinct non-trivial, '
          f'{counters["oracle evaluations"]} oracle evaluations) in {time.time() - t0:.1f} s')
    return 0
