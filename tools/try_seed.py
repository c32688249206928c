"""Development aid: verifies planted bugs of seeded/ in a scratch copy and runs checks against them.

  try_seed.py [--notest] [--checks C01,C02 | --own | --nocheck] id...
Prints per bug: patch applies, builds, stable tests pass, demo ok/fails, and which checks catch it.
"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SCRATCH', '/tmp/sd')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONPATH=S + '/src', JPT_REPO=S, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
           PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_EVIDENCE=S + '/build/ev',
           PATH='/opt/venv/bin:' + os.environ['PATH'])


def sh(cmd, cwd=S, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, 'timeout'


def tests():
    sh(f'rm -f {S}/build/junit.xml')
    sh(f'cd {S}/test && {PY} -m pytest -q -p no:cacheprovider --rootdir={S} --timeout=300 -W ignore -n 8 --dist loadscope '
       f'--continue-on-collection-errors -o junit_family=xunit2 --junitxml={S}/build/junit.xml .')
    sh(f'python3 /opt/vp/results.py {S}/build/o.json junit:{S}/build/junit.xml')
    b = json.load(open('/opt/vp/BASELINE.json'))
    st = set(b.get('passed') or b.get('stable') or next(v for v in b.values() if isinstance(v, list)))
    try:
        return sorted(st - set(json.load(open(S + '/build/o.json'))['passed']))
    except OSError:
        return ['no result']


def main():
    args = sys.argv[1:]
    notest = '--notest' in args
    checks = None
    ids = []
    it = iter(args)
    for a in it:
        if a == '--checks':
            checks = next(it).split(',')
        elif a == '--nocheck':
            checks = []
        elif not a.startswith('--'):
            ids.append(a)
    base = f'rsync -a --delete --exclude /build --exclude .git --exclude "*.so" --exclude "*.c" --exclude "*.cpp" /repo/ {S}/'
    if not os.path.isdir(S):
        subprocess.run(['cp', '-a', '/repo', S])
    for i in ids or sorted(os.listdir(HERE + '/seeded')):
        d = f'{HERE}/seeded/{i}'
        prop = json.load(open(d + '/meta.json'))['property']
        sh('git checkout -q -- . ; git fetch -q /repo && git reset -q --hard FETCH_HEAD')
        rc, o = sh('bash ' + HERE + '/build.sh')
        rc0, o0 = sh(f'bash {d}/demo.sh', timeout=300)
        rc, o = sh(f'git apply {d}/patch.diff')
        if rc:
            print(i, 'DOES NOT APPLY', o); continue
        rc, o = sh('bash ' + HERE + '/build.sh')
        if rc:
            print(i, 'DOES NOT BUILD', o[-800:]); continue
        rc1, o1 = sh(f'bash {d}/demo.sh', timeout=300)
        t = 'skipped' if notest else tests()
        msg = f'{i} [{prop}] demo clean={rc0} bug={rc1} regressed={t if t else "none"}'
        if rc0:
            msg += '\n   ' + o0[-1500:]
        if rc1 == 0:
            msg += '\n   DEMO DOES NOT FAIL ' + o1[-500:]
        print(msg, flush=True)
        for c in (checks if checks is not None else [prop]):
            rc, o = sh(f'bash {HERE}/run.sh {c}')
            line = [l for l in o.splitlines() if l.strip() and not l.startswith(('WARN', 'VIOL', '    '))]
            print(f'   {c}: rc={rc}', (line[-1] if line else '')[:200], flush=True)
    sh('git checkout -q -- .')


main()
