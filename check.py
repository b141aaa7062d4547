#!/usr/bin/env python3
"""check.py CXX [--replay FILE]: builds the harness of one property over
/repo's working tree, runs it under a watchdog, judges crashes, and writes
/verif/evidence/CXX.json. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: no verdict."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.setdefault('HOME', '/root')
os.environ['PATH'] = os.environ.get('PATH', '/usr/bin:/bin') + ':/usr/local/bin:/usr/local/go/bin'
MOD = 'github.com/sencha-dev/powkit'
NS = 'internal/zzverif'

# per property: builds = list of (binary name, package under cmd/, race?, goarch)
DEF = dict(race=False, level='exploration', slice=8)
PROPS = {
    'C04': dict(access=True),
    'C08': dict(access=True),
    'C17': dict(race=True),
    'C21': dict(level='fault_enumeration'),
    'C22': dict(faults=True, level='fault_enumeration'),
    'C24': dict(faults=True),
    'C29': dict(extra=[('c29_386', '@c29', False, '386'), ('c29_js', '@c29js', False, 'wasm'), ('c29_arm64', '@c29arm', False, 'arm64')]),
    'C31': dict(extra=[('c31_386', '@c31', False, '386'), ('c31_js', '@c31js', False, 'wasm')]),
    'C30': dict(extra=[('genlookup', './cmd/gen-lookup', False, None)]),
}


OPTIONAL = ('wasm', 'arm64')


def faulty_mmap(scratch, name='mmap_unix.go'):
    """a module file that replaces mmap-go by a copy that can be told to fail"""
    env = dict(os.environ, GOFLAGS='', GOTOOLCHAIN='local', GOPROXY='off')
    p = subprocess.run(['go', 'list', '-m', '-f', '{{.Dir}}', 'github.com/edsrzf/mmap-go'], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    src = p.stdout.strip()
    if p.returncode != 0 or not os.path.exists(os.path.join(src, 'mmap_unix.go')):
        return None
    d = os.path.join(scratch, 'mmap-go')
    os.makedirs(d)
    for f in os.listdir(src):
        if f.endswith('.go') and not f.endswith(('_test.go', '_unix.go')):
            shutil.copyfile(os.path.join(src, f), os.path.join(d, f))
    shutil.copyfile(os.path.join(VERIF, 'harness', 'faultmmap', name), os.path.join(d, name))
    open(os.path.join(d, 'go.mod'), 'w').write('module github.com/edsrzf/mmap-go\n\ngo 1.17\n')
    m = os.path.join(scratch, 'go.mod')
    open(m, 'w').write(open(os.path.join(REPO, 'go.mod')).read() + '\nreplace github.com/edsrzf/mmap-go => %s\n' % d)
    shutil.copyfile(os.path.join(REPO, 'go.sum'), os.path.join(scratch, 'go.sum'))
    return m


def overlay(scratch, access=False):
    """/verif/harness/** as /repo/internal/zzverif/**; with access also
    harness/access/** as files of powkit's own packages"""
    rep = {}
    base = os.path.join(VERIF, 'harness')
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(('.go', '.s')) and not f.endswith('_test.go'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, base)
                if not rel.startswith('access/'):
                    rep[os.path.join(REPO, NS, rel)] = p
                elif access:
                    rep[os.path.join(REPO, rel[len('access/'):])] = p
    o = os.path.join(scratch, 'overlay%s.json' % ('-access' if access else ''))
    json.dump({'Replace': rep}, open(o, 'w'))
    return o


def build(scratch, pkg, out, race=False, arch=None, ov=None, mod=None, optional=False):
    env = dict(os.environ)
    env['GOFLAGS'] = ''
    env['GOTOOLCHAIN'] = 'local'
    env['GOPROXY'] = 'off'
    env['CGO_ENABLED'] = '1' if race else '0'
    if arch:
        env['GOARCH'] = arch
    if arch == 'wasm':
        env['GOOS'] = 'js'
    cmd = ['go', 'build', '-buildvcs=false', '-overlay', ov, '-o', out]
    if race:
        cmd.append('-race')
    if mod:
        cmd += ['-modfile', mod, '-mod=mod']
    cmd.append(pkg)
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and (optional or arch in OPTIONAL):
        return None  # a platform the repository does not promise to build for
    if p.returncode != 0:
        print('BUILD FAILED: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]), file=sys.stderr)
        sys.exit(2)
    return out


def cpu_of_group(pgid):
    """CPU ticks of the processes we started (our own process group)."""
    tot = 0
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            st = open('/proc/%s/stat' % p).read().rsplit(')', 1)[1].split()
        except OSError:
            continue
        if int(st[2]) == pgid:
            tot += sum(int(x) for x in st[11:15])
    return tot


def in_repo(stack):
    """frames of the code under test in a Go stack dump"""
    return [l for l in stack.splitlines() if l.startswith(MOD + '/') and '/zzverif/' not in l]


def crash_verdict(err):
    """(what, excerpt) if the output shows that the code under test crashed"""
    m = re.search(r'WARNING: DATA RACE.*?==================', err, re.S)
    if m:
        b = m.group(0)
        if re.search(re.escape(MOD) + r'/(?!internal/zzverif)', b):
            return 'data race', b
        return None
    for pat, what in ((r'^fatal error: all goroutines are asleep', 'deadlock'), (r'^fatal error: (?!.*newosproc).*', 'fatal error'),
                      (r'^unexpected fault address', 'fault'), (r'^panic: .*', 'panic'), (r'^SIGSEGV.*', 'fault'), (r'^SIGBUS.*', 'fault'),
                      (r'^\[signal SIG.*', 'fault'), (r'checkptr', 'checkptr')):
        m = re.search(pat, err, re.M)
        if not m:
            continue
        tail = err[m.start():]
        # the goroutine that crashed is printed first
        first = re.split(r'\n\ngoroutine ', tail)
        top = '\n\ngoroutine '.join(first[:2])
        if what == 'deadlock':
            top = tail
        if in_repo(top):
            return what, tail[:8000]
        return None
    return None


RUNNING = []


def ended(*_):
    """asked to stop: take the workload along"""
    for pid in RUNNING:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    sys.exit(2)


def run(prop, binpath, scratch, race, tier, seed, timeout, more=None):
    out = os.path.join(scratch, 'result.json')
    env = dict(os.environ)
    env.update(MON_OUT=out, VERIF_SCRATCH=os.path.join(scratch, 's'), VERIF_TIER=tier, VERIF_SEED=str(seed),
               VERIF_DIR=VERIF, VERIF_REPO=REPO, VERIF_BIN=binpath, GOTRACEBACK='all',
               GORACE='halt_on_error=1 history_size=3', HOME=os.path.join(scratch, 'home'))
    def limit():
        pass
    if more:
        env.update(more['env'], VERIF_SLICE=str(more['slice']))
        cpus = sorted(os.sched_getaffinity(0))
        k = more['cpus'] + 7 * seed
        use = [cpus[(k + i) % len(cpus)] for i in range(min(more['cpus'], len(cpus)))]

        def limit():
            os.sched_setaffinity(0, use)
    os.makedirs(env['VERIF_SCRATCH'])
    os.makedirs(env['HOME'])
    errp = os.path.join(scratch, 'stderr')
    t0 = time.time()
    with open(errp, 'wb') as ef:
        p = subprocess.Popen([binpath], cwd=env['VERIF_SCRATCH'], env=env, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=limit)
        idle_since, last, hung = time.time(), -1, None
        RUNNING.append(p.pid)
        while True:
            try:
                p.wait(timeout=0.2 if time.time() - t0 < 5 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            c = cpu_of_group(p.pid)
            if c - last > 5:  # more than 50 ms of CPU since idle_since
                idle_since, last = now, c
            if now - idle_since > 100:
                hung = 'blocked'
            elif now - t0 > timeout:
                hung = 'timeout'
            if hung:
                p.send_signal(signal.SIGQUIT)
                try:
                    p.wait(timeout=20)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    err = open(errp, errors='replace').read()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return p.returncode, err, res, hung, time.time() - t0


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier != 'thorough':
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        tier, seed = rp['tier'], rp['seed']
    cfg = dict(DEF)
    cfg.update(PROPS.get(prop, {}))
    scratch = tempfile.mkdtemp(prefix='powkit-%s-' % prop)
    os.chmod(scratch, 0o755)
    signal.signal(signal.SIGTERM, ended)
    try:
        code = decide(prop, cfg, scratch, tier, seed)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def judge(rc, err, res, hung, wall, timeout):
    """what a finished run says: its result, violations, missing verdicts"""
    viol, incon = [], []
    if res:
        viol += res['violations'] or []
        incon += res['inconclusive'] or []
    if hung == 'blocked':
        g = [x for x in err.split('\n\n') if in_repo(x)]
        if g:
            viol.append({'what': 'deadlock: no progress, calls blocked inside the code under test', 'detail': '\n\n'.join(g)[:8000]})
        else:
            incon.append('harness made no progress')
    elif hung == 'timeout':
        incon.append('watchdog: run did not finish in %d s' % timeout)
    elif not res or rc not in (0, 1, 4):
        crashed = crash_verdict(err)
        if crashed:
            viol.append({'what': crashed[0] + ' in the code under test', 'detail': crashed[1]})
        else:
            incon.append('harness exited with %s without a result' % rc)
    return res, viol, incon, err


def elsewhere(prop, cfg, b, scratch, tier, seed, timeout, cov, viol, incon):
    """a part of the workload again, with other seeds, in processes that see
    fewer processors and collect garbage at another pace"""
    envs = [dict(cpus=1, env={'GOGC': '25'}), dict(cpus=3, env={})]
    if tier == 'thorough':
        envs += [dict(cpus=2, env={'GOGC': '5'}), dict(cpus=5, env={}), dict(cpus=7, env={'GOGC': '400'})]
    cov['environments'] = []

    def go(k):
        e = dict(envs[k], slice=cfg['slice'])
        d = os.path.join(scratch, 'env%d' % k)
        os.makedirs(d)
        os.chmod(d, 0o755)
        return e, judge(*run(prop, b, d, cfg['race'], tier, seed * 1000 + k + 1, timeout, e), timeout)
    with ThreadPoolExecutor(2) as ex:
        for e, (res, v, inc, err) in ex.map(go, range(len(envs))):
            what = '%d processor%s, GOGC=%s' % (e['cpus'], 's' if e['cpus'] > 1 else '', e['env'].get('GOGC', 'default'))
            for x in v:
                x['what'] += ' [%s]' % what
            viol += v
            incon += ['%s: %s' % (what, x) for x in inc]
            if inc:
                print(err[-3000:], file=sys.stderr)
            if res:
                cov['environments'].append({'environment': what, 'evaluations': res['coverage']['evaluations'], 'observed': res['coverage']['observed']})


def decide(prop, cfg, scratch, tier, seed):
    t0 = time.time()
    ov = overlay(scratch)
    mod = faulty_mmap(scratch) if cfg.get('faults') else None
    main = (scratch, './%s/cmd/%s' % (NS, prop.lower()), os.path.join(scratch, 'main'), cfg['race'], None)
    b = cfg.get('access') and build(*main, overlay(scratch, True), mod, True) or build(*main, ov, mod)
    for name, pkg, race, arch in cfg.get('extra', []):
        m = None
        if arch == 'wasm':
            os.makedirs(os.path.join(scratch, 'js'), exist_ok=True)
            m = faulty_mmap(os.path.join(scratch, 'js'), 'mmap_js.go')
            root = subprocess.run(['go', 'env', 'GOROOT'], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout.strip()
            os.environ['VERIF_WASM_EXEC'] = os.path.join(root, 'lib/wasm/wasm_exec_node.js')
        build(scratch, pkg.replace('@', './%s/cmd/' % NS), os.path.join(scratch, name), race, arch, ov, m)
    timeout = cfg.get('timeout', 800) if tier == 'quick' else cfg.get('timeout_thorough', 7200)
    res, viol, incon, err = judge(*run(prop, b, scratch, cfg['race'], tier, seed, timeout), timeout)
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'the run ended before it could report', 'samples': []}
    if res:
        cov = res['coverage']
    known = load_known(prop)
    matches = lambda v: next((k for k in known if k['match'] in v['what'] + ' ' + json.dumps(v.get('case'))), None)
    if not incon and cfg['slice'] and all(matches(v) for v in viol):
        elsewhere(prop, cfg, b, scratch, tier, seed, timeout, cov, viol, incon)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov,
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if incon:
        ev['coverage']['inconclusive'] = incon
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    fresh, said = [], []
    for v in viol:
        k = matches(v)
        if k:
            if k not in said:
                said.append(k)
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            fresh.append(v)
    if fresh:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            rp = os.path.join(d, '%s-%s-%d-%d.json' % (prop, tier, seed, i))
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'violation': v,
                       'how': 'python3 /verif/check.py %s --replay %s' % (prop, rp)}, open(rp, 'w'), indent=1)
            print('  %s' % v['what'])
            if v.get('case') is not None:
                print('    case: %s' % json.dumps(v['case'])[:600])
            if v.get('detail'):
                print('    ' + v['detail'][:1500].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if incon:
        print('INCONCLUSIVE property=%s: %s' % (prop, '; '.join(incon)), file=sys.stderr)
        print(err if len(err) < 9000 else err[:5000] + "\n ... \n" + err[-3000:], file=sys.stderr)
        return 2
    print('%s held: %s evaluations, %s distinct, %.1f s' % (prop, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return 0


def load_known(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


if __name__ == '__main__':
    main()
