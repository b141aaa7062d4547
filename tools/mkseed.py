#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from specifications. A spec
calls seed(id, property, needs, breaks, edits, pkg, demo, arch=None, files=None);
edits are (file, old, new) against /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Passes on the unchanged tree, fails with the planted change.
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/tmp"
export TMPDIR="$t/tmp" DEMO_DIR="$dir"
echo "{\"Replace\": {\"$PWD/@PKG@/zz_demo_test.go\": \"$dir/demo_test.go\"}}" > "$t/overlay.json"
@ENV@go test @FLAGS@-count=1 -vet=off -timeout 280s -overlay "$t/overlay.json" -run '^TestDemo$' ./@PKG@
'''
HEAD = '''//go:build go1.17

package %s

import (
%s
)

'''


def seed(sid, prop, needs, breaks, edits, pkg, imports, demo, package=None, env='', flags='', files=None, sh=None):
    d = os.path.join(V, 'seeded', sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='mkseed-')
    try:
        subprocess.run(['git', '-C', '/repo', 'archive', '-o', w + '/a.tar', 'HEAD'], check=True)
        os.mkdir(w + '/r')
        subprocess.run(['tar', 'xf', w + '/a.tar', '-C', w + '/r'], check=True)
        subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True, cwd=w + '/r')
        for f, old, new in edits:
            p = w + '/r/' + f
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit('%s: %s: %d matches of %r' % (sid, f, s.count(old), old))
            open(p, 'w').write(s.replace(old, new))
        subprocess.run(['gofmt', '-l', '-w'] + sorted({w + '/r/' + f for f, _, _ in edits if f.endswith('.go')}), check=True, stdout=subprocess.DEVNULL) if any(f.endswith('.go') for f, _, _ in edits) else 0
        diff = subprocess.run(['git', 'diff'], cwd=w + '/r', stdout=subprocess.PIPE, check=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        shutil.rmtree(w)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if sh:
        open(d + '/demo.sh', 'w').write(sh)
    else:
        open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', pkg).replace('@ENV@', env and env + ' ').replace('@FLAGS@', flags and flags + ' '))
    os.chmod(d + '/demo.sh', 0o755)
    for f, text in (files or {}).items():
        open(d + '/' + f, 'w').write(text)
    if demo and 't.TempDir()' in demo:
        # not removed by the test: caches are still generated in the background
        demo = demo.replace('t.TempDir()', 'scratchDir()') + '''
// scratchDir lies in the directory that demo.sh removes.
func scratchDir() string {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	return dir
}
'''
        imports = sorted(set(imports) | {'os'})
    if demo:
        name = package or pkg.split('/')[-1]
        body = HEAD % (name, '\n'.join('\t"%s"' % i for i in imports)) + demo.strip() + '\n'
        p = d + '/demo_test.go'
        open(p, 'w').write(body)
        subprocess.run(['gofmt', '-w', p], check=True)
    print('wrote', sid)


if __name__ == '__main__':
    only = None
    env = {"seed": seed}
    for a in sys.argv[1:]:
        exec(compile(open(a).read(), a, "exec"), env)
