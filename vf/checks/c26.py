"""The compiled extensions stay within their buffers.

The extensions are rebuilt in a scratch directory from the sources of the working tree, with bounds and None checks switched on and
with the address and undefined-behaviour sanitizers. The same workloads run against that build and against the production build; the
latter also with an allocator that fills new (and freed) numpy buffers with different patterns.
"""
import atexit
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

from vf.core import Violation

PROPERTY = 'C26'
RULE = ('Each case runs one workload (calls of every method of the extension types with hostile arguments, learning from degenerate data and '
        'querying the trees, or cases of another check) in processes of its own: in a build of the extensions with bounds checks, None checks and '
        'address and undefined-behaviour sanitizers, and in the production build under numpy allocators that poison new and freed memory with '
        'different patterns. Sanitizer reports, crashes, lost exceptions, bounds or None errors that the production build does not raise, and answers '
        'that depend on the pattern are violations. The instrumentation is tested with planted defects in every run. '
        'Non-trivial: a workload with at least one unit executed in the instrumented build.')
OTHERS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18',
          'C19', 'C20', 'C21', 'C22', 'C23', 'C25', 'C27']
CASES = {'quick': 53, 'thorough': 800}
REQUIRED = ['canaries reported', 'operations in the instrumented build', 'operations in the production build', 'operations under poisoned memory',
            'learned models in the instrumented build', 'cases of other checks in the instrumented build', 'fingerprints under poisoned memory',
            'poisoned buffers']
ASSUMPTIONS = ['arguments have the documented types; the operations listed in vf/native.py (SPEC)',
               'numpy, CPython and other libraries are not instrumented; their heap blocks are checked by the address sanitizer only',
               'signed overflow is defined in this build (-fwrapv)']
MEM_LIMIT = None
WORKERS = 8
CPU_LIMIT = 1200.
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = None
OOB = re.compile(r"IndexError|'NoneType' object|Out of bounds")
FLAGS = '-O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-omit-frame-pointer'


# -- builds -----------------------------------------------------------------------------------------
def prepare():
    global BUILD
    repo = os.environ.get('JPT_REPO', '/repo')
    top = tempfile.mkdtemp(prefix='vf-native-')
    BUILD = top
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(top, ignore_errors=True))
    inst = os.path.join(top, 'inst')
    os.makedirs(inst)
    for f in ['setup.py', 'README.md'] + [os.path.basename(x) for x in glob.glob(os.path.join(repo, 'requirements*.txt'))]:
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), inst)
    shutil.copytree(os.path.join(repo, 'src'), os.path.join(inst, 'src'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '*.cpp', '__pycache__', '*.html', 'build'))
    changed = 0
    for f in glob.glob(os.path.join(inst, 'src', '**', '*.p[yx][xd]'), recursive=True):
        with open(f) as fd:
            s = fd.read()
        t, n = re.subn(r'(boundscheck|nonecheck)(\s*[=(]\s*)False', r'\1\2True', s)
        if n:
            changed += 1
            with open(f, 'w') as fd:
                fd.write(t)
    if not changed:
        print('note: no bounds checks had to be switched on')
    env = {**os.environ, 'CFLAGS': FLAGS, 'CXXFLAGS': FLAGS, 'LDFLAGS': '-fsanitize=address,undefined'}
    env.pop('PYTHONPATH', None)
    mons = []
    for name, e in (('inst', env), ('prod', dict(os.environ))):
        d = os.path.join(top, 'mon-' + name)
        shutil.copytree(os.path.join(HERE, 'vf', 'nativesrc'), d)
        mons.append((d, subprocess.Popen([sys.executable, 'setup.py', 'build_ext', '--inplace'], cwd=d, env=e,
                                         stdout=open(os.path.join(d, 'log'), 'w'), stderr=subprocess.STDOUT)))
    with open(os.path.join(inst, 'log'), 'w') as log:
        r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', '6'], cwd=inst,
                           env={**env, 'PYTHONPATH': os.path.join(inst, 'src')}, stdout=log, stderr=subprocess.STDOUT)
    if r.returncode:
        print(open(os.path.join(inst, 'log')).read()[-3000:])
        raise SystemExit(3)
    for d, p in mons:
        if p.wait():
            print(open(os.path.join(d, 'log')).read()[-3000:])
            raise SystemExit(3)


def setup(ctx):
    prepare()


def libs():
    r = [subprocess.run(['gcc', f'-print-file-name={x}'], capture_output=True, text=True).stdout.strip()
         for x in ('libasan.so', 'libstdc++.so')]
    return ' '.join(r)


def run(build, args, poison=None, timeout=600):
    """Executes a workload, restarting it behind units in which the process died; yields its events."""
    repo = os.path.join(BUILD, 'inst') if build == 'inst' else os.environ.get('JPT_REPO', '/repo')
    env = {**os.environ, 'JPT_REPO': repo, 'PYTHONPATH': os.pathsep.join([os.path.join(repo, 'src'), HERE, os.path.join(BUILD, 'mon-' + build)]),
           'PYTHONHASHSEED': '0', 'PYTHONMALLOC': 'malloc'}
    if poison is not None:
        env['VF_POISON'] = str(poison)
        env['MALLOC_PERTURB_'] = str(poison or 1)
    if build == 'inst':
        env.update({'LD_PRELOAD': libs(), 'UBSAN_OPTIONS': 'halt_on_error=1:exitcode=99:print_stacktrace=1',
                    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000'})

    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if build != 'inst':
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

    args = list(args)
    count = int(args[4 if args[0] == 'cases' else 2]) if args[0] != 'canary' else 1
    start = int(args[3]) if args[0] == 'cases' else (int(args[3]) if len(args) > 3 else 0)
    end = start + count
    events = []
    while start < end:
        a = [args[0]] + ([args[1], args[2], start, end - start] if args[0] == 'cases' else
                         [args[1]] if args[0] == 'canary' else [args[1], end - start, start])
        try:
            p = subprocess.run([sys.executable, '-m', 'vf.native'] + [str(x) for x in a], env=env, cwd=HERE, preexec_fn=limits,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            out, err, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = e.stdout or b'', e.stderr or b'', -signal.SIGALRM
        last, done = None, False
        for line in out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if 'end' in m:
                done = True
                if m.get('poisoned'):
                    events.append({'poisoned': m['poisoned'][0]})
            elif 'start' in m:
                last = m
            elif 'i' in m:
                events.append(m)
                last = None
        err = err.decode(errors='replace')
        report = [x for x in err.splitlines() if 'runtime error:' in x or 'ERROR: AddressSanitizer' in x or 'SUMMARY:' in x]
        stack = [x.strip() for x in err.splitlines() if re.match(r'\s+#\d+ ', x)][:12]
        if report:
            events.append({'i': last['start'] if last else end, 'report': report, 'stack': stack, 'what': (last or {}).get('what'), 'out': ['report']})
        if done:
            return events
        if last is None:
            raise SystemExit(f'{build} {a} ended with {rc}: {err[-1500:]}')
        if not report:
            s = signal.Signals(-rc).name if rc < 0 else f'status {rc}'
            events.append({'i': last['start'], 'died': s, 'what': last.get('what'), 'out': [f'died: {s}'], 'stderr': err[-800:]})
        start = last['start'] + 1
    return events


def method(m):
    return m.get('method') or re.split(r'[(\s]', str(m.get('what')))[0]


def inspect(ctx, build, events, cmd):
    """The violations that a single execution shows by itself."""
    for m in events:
        if 'poisoned' in m:
            ctx.count('poisoned buffers', m['poisoned'])
            continue
        where = method(m)
        if 'report' in m:
            ctx.soft(f'sanitizer report/{where}', f'{m["report"][0]} in {m["what"]}', report=m['report'], stack=m['stack'], command=cmd)
        elif m.get('died') == 'SIGALRM':
            ctx.count('units out of time')
        elif 'died' in m:
            ctx.soft(f'crash/{m["died"]}/{where}', f'{m["died"]} in {m["what"]} ({build} build)', command=cmd, stderr=m['stderr'])
        for u in m.get('un') or []:
            if 'jpt.' in u:
                ctx.soft(f'lost exception/{u.rsplit(" in ", 1)[-1]}', f'{u} is not raised: {m["what"]}', command=cmd)
    ctx.counters['oracle evaluations'] += len(events)


def by_index(events):
    return {m['i']: m for m in events if 'i' in m}


def compare(ctx, a, b, cmd):
    """Errors of the checked build that the production build does not have."""
    a, b = by_index(a), by_index(b)
    for i, x in a.items():
        y = b.get(i)
        if y is None or 'died' in y or 'died' in x:
            continue
        ctx.counters['oracle evaluations'] += 1
        for k, o in enumerate(x['out']):
            if OOB.search(o) and (k >= len(y['out']) or y['out'][k] != o):
                ctx.soft(f'out of bounds/{method(x)}', f'{o} with bounds checks, without them: {y["out"]}: {x["what"]}', command=cmd)
                break


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def poisoned(ctx, a, b, cmd):
    a, b = by_index(a), by_index(b)
    for i, x in a.items():
        y = b.get(i)
        if y is None or 'died' in y or 'died' in x:
            continue
        ctx.counters['oracle evaluations'] += 1
        for k in ('out', 'res', 'nums'):
            if not equal(x.get(k), y.get(k)):
                ctx.soft(f'uninitialised memory/{method(x)}', f'{x["what"]} depends on the contents of fresh memory: '
                         f'{str(x.get(k))[:300]} | {str(y.get(k))[:300]}', command=cmd)
                break


# -- self test --------------------------------------------------------------------------------------
def canaries(ctx):
    for name, expect in (('canary_heap_overflow', 'insufficient space'), ('canary_use_after_free', 'heap-use-after-free'),
                         ('canary_numpy_overflow', 'AddressSanitizer: heap-buffer-overflow'), ('canary_float_cast', 'runtime error')):
        ev = run('inst', ['canary', name])
        if not any(expect in r for m in ev for r in m.get('report', [])):
            raise SystemExit(f'the sanitizers do not report {name}: {ev}')
        ctx.count('canaries reported')
    ev = run('inst', ['canary', 'canary_bounds'])
    ev += run('inst', ['canary', 'canary_unraisable'])
    if not OOB.search(str(ev[0]['out'])) or not ev[1].get('un'):
        raise SystemExit(f'bounds checks or lost exceptions are not observed: {ev}')
    a, b = [run('prod', ['canary', 'canary_uninitialised'], poison=p)[0]['res'] for p in (0, 255)]
    if a == b:
        raise SystemExit(f'uninitialised memory is not observed: {a}')
    ctx.count('canaries reported', 3)


# -- cases ------------------------------------------------------------------------------------------
def plan(i, tier):
    if i == 0:
        return 'canaries', 0
    if i <= len(OTHERS):
        return 'cases', i - 1
    k = (i - len(OTHERS) - 1) % 8
    return ('ops' if k < 4 else 'learn' if k < 6 else 'print'), i


def case(ctx):
    kind, k = plan(ctx.i, ctx.tier)
    seed = ctx.seed * 100003 + ctx.i
    big = 4 if ctx.tier == 'thorough' else 1
    if kind == 'canaries':
        canaries(ctx)
        ctx.nontrivial(kind)
        return
    if kind == 'cases':
        n = 12 * big
        args = ['cases', OTHERS[k], ctx.seed, 500000, n]
        a = run('inst', args)
        inspect(ctx, 'inst', a, args)
        ctx.count('cases of other checks in the instrumented build', len(by_index(a)))
        if any(OOB.search(o) or 'IndexError' in o or 'AttributeError' in o for m in a for o in m.get('out', [])):
            compare(ctx, [{**m, 'out': [o.replace('exception/', '') for o in m['out']]} for m in a if 'out' in m],
                    [{**m, 'out': [o.replace('exception/', '') for o in m['out']]} for m in run('prod', args) if 'out' in m], args)
        ctx.nontrivial(kind, OTHERS[k])
        return
    if kind == 'ops':
        args = ['ops', seed, 450 * big]
        a = run('inst', args)
        inspect(ctx, 'inst', a, args)
        b = run('prod', args, poison=0)
        inspect(ctx, 'prod', b, args)
        c = run('prod', args, poison=255)
        inspect(ctx, 'prod', c, args)
        compare(ctx, a, b, args)
        poisoned(ctx, b, c, args)
        ctx.count('operations in the instrumented build', len(by_index(a)))
        ctx.count('operations in the production build', len(by_index(b)))
        ctx.count('operations under poisoned memory', len(by_index(c)))
        for m in a:
            if m.get('method'):
                ctx.count(f'method {m["method"]}')
        ctx.nontrivial(kind, seed, len(a))
    elif kind == 'learn':
        args = ['learn', seed, 16 * big]
        a = run('inst', args)
        inspect(ctx, 'inst', a, args)
        b = run('prod', args, poison=255)
        inspect(ctx, 'prod', b, args)
        compare(ctx, a, b, args)
        ctx.count('learned models in the instrumented build', len(by_index(a)))
        ctx.nontrivial(kind, seed, len(a))
    else:
        args = ['print', seed, 7 * big]
        x = [run('prod', args, poison=p) for p in (0, 255, 0x41)]
        for e in x:
            inspect(ctx, 'prod', e, args)
        poisoned(ctx, x[0], x[1], args)
        poisoned(ctx, x[0], x[2], args)
        a = run('inst', args)
        inspect(ctx, 'inst', a, args)
        ctx.count('fingerprints under poisoned memory', len(by_index(x[1])))
        ctx.count('learned models in the instrumented build', len(by_index(a)))
        ctx.nontrivial(kind, seed)
