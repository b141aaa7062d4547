#!/usr/bin/env python3
"""seedtest.py [--tests] [--check[=C01,C02]] [-j N] ID...: try planted bugs in
scratch copies of /repo: the patch applies and builds, the stable tests pass,
the demonstration passes on the clean tree and fails on the patched one, the
check of the property reports it. Nothing here is used by the checks."""
import fcntl, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           PATH='/usr/local/bin:/usr/bin:/bin:' + os.environ['PATH'])


def sh(cmd, cwd, timeout=900, env=None, log=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 124, str(e.stdout)
    if log:
        open(log, 'a').write('$ %s -> %d\n%s\n' % (' '.join(cmd), rc, out[-20000:]))
    return rc, out


def one(sid, opts):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    res = {'id': sid, 'property': meta['property']}
    log = '/tmp/seedlogs/%s.log' % sid
    os.makedirs('/tmp/seedlogs', exist_ok=True)
    open(log, 'w').close()
    top = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(top, 'repo')
        sh(['cp', '-a', '/repo', w], '/')
        sh(['git', 'checkout', '-q', '--', '.'], w)
        demo = os.path.join(top, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        if opts['demo']:
            rc, _ = sh(['bash', os.path.join(demo, 'demo.sh')], w, 300, log=log)
            res['demo_clean'] = rc == 0
        rc, _ = sh(['git', 'apply', os.path.join(d, 'patch.diff')], w, log=log)
        res['applies'] = rc == 0
        rc, _ = sh(['go', 'build', './...'], w, log=log)
        res['builds'] = rc == 0
        if opts['demo']:
            t = time.time()
            rc, _ = sh(['bash', os.path.join(demo, 'demo.sh')], w, 300, log=log)
            res['demo_patched_fails'] = rc not in (0, 124)
            res['demo_s'] = round(time.time() - t)
        if opts['tests']:
            with open('/tmp/seedtests.lock', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                shutil.rmtree('/root/.powcache', ignore_errors=True)
                rc, out = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-p', '1', '-timeout', '10m', './...'], w)
                shutil.rmtree('/root/.powcache', ignore_errors=True)
            ok = set()
            for l in out.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get('Action') == 'pass' and e.get('Test'):
                    ok.add(e['Package'] + '/' + e['Test'])
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            res['tests'] = not [x for x in stable if x not in ok] or [x.split('/')[-1] for x in stable if x not in ok]
        if opts['check']:
            res['caught'] = {}
            for c in (opts['check'] if opts['check'] != ['own'] else [meta['property']]):
                t = time.time()
                env = dict(ENV, VERIF_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'))
                rc, out = sh(['python3', os.path.join(V, 'check.py'), c], V, 1000, env=env, log=log)
                res['caught'][c] = ('CAUGHT' if rc == 1 and 'VIOLATION property=%s' % c in out else 'MISSED rc=%d' % rc, round(time.time() - t))
    finally:
        shutil.rmtree(top)
    return res


opts = {'tests': False, 'check': None, 'demo': True}
ids, j = [], 2
for a in sys.argv[1:]:
    if a == '--tests':
        opts['tests'] = True
    elif a == '--nodemo':
        opts['demo'] = False
    elif a == '--check':
        opts['check'] = ['own']
    elif a.startswith('--check='):
        opts['check'] = a[8:].split(',')
    elif a.startswith('-j'):
        j = int(a[2:])
    else:
        ids.append(a)
ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(lambda i: one(i, opts), ids):
        bad = [k for k in ('demo_clean', 'applies', 'builds', 'demo_patched_fails') if r.get(k) is False] + (['tests'] if r.get('tests') not in (None, True) else [])
        print('%-28s %s %s' % (r['id'], 'BAD ' + ','.join(bad) if bad else 'ok', {k: v for k, v in r.items() if k in ('tests', 'caught', 'demo_s')}), flush=True)
