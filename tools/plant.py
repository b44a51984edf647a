#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py  -> /verif/seeded/<id>/ when it is confirmed in a scratch copy.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], PKG (dir the demo test is laid in), DEMO (Go test source).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO_SH = '''#!/bin/bash
# fails when the planted change is in the tree
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
TMPDIR="$tmp" go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s > "$tmp/out" 2>&1
rc=$?
grep -v '^{' "$tmp/out" | tail -40
[ $rc = 0 ] && grep -q '^ok' "$tmp/out"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    rc = 0
    for path in sys.argv[1:]:
        s = runpy.run_path(path)
        out = plant(s)
        print(s['ID'], out)
        rc |= out != 'ok'
    return rc

def plant(s):
    d = '/verif/seeded/' + s['ID']
    scr = tempfile.mkdtemp(prefix='plant-')
    r = scr + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True)
        sh('git checkout -q -- . && git clean -fdq', r)
        orig = set()
        for f, old, new in s['EDITS']:
            p = r + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit does not match exactly once in %s: %d' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        fmt = sh('. /opt/vp/env.sh; gofmt -l ' + ' '.join(f for f, _, _ in s['EDITS']), r).stdout
        if fmt.strip():
            sh('. /opt/vp/env.sh; gofmt -w ' + ' '.join(f for f, _, _ in s['EDITS']), r)
        diff = subprocess.run('git diff', cwd=r, shell=True, stdout=subprocess.PIPE, text=True).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        base = sh('git grep -h "" 4adc0e1 -- "*.go"', r).stdout.split('\n')
        base = set(base)
        mine = [l for l in removed if l not in base and l.strip()]
        if mine or not [l for l in removed if l.strip()]:
            print('   WARNING: removed lines not of the original:', mine)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go.txt', 'w').write(s['DEMO'])
        open(d + '/demo.sh', 'w').write(DEMO_SH % {'pkg': s['PKG']})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('. /opt/vp/env.sh; go build ./... ', r)
        if b.returncode:
            return 'BUILD ' + b.stdout
        bad = sh(d + '/demo.sh', r)
        if bad.returncode == 0:
            return 'DEMO passes with the change\n' + bad.stdout
        print('   ', '\n    '.join(bad.stdout.strip().splitlines()[:6]))
        sh('git checkout -q -- .', r)
        good = sh(d + '/demo.sh', r)
        if good.returncode:
            return 'DEMO fails on the clean tree\n' + good.stdout
        sh('git apply ' + d + '/patch.diff', r)
        # stable tests with the change
        sh('sed "s#cd /repo#cd %s#" /opt/vp/test.sh > %s/t.sh' % (r, scr), r)
        sh('bash %s/t.sh %s/out.json' % (scr, scr), r)
        want = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(scr + '/out.json'))
        fails = missing(want, got)
        if fails:
            return 'STABLE TESTS fail: %s' % fails
        return 'ok'
    finally:
        shutil.rmtree(scr)

def missing(want, got):
    def passed(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'pass', 'tests'):
                if k in x:
                    v = x[k]
                    if isinstance(v, dict):
                        return {a for a, b in v.items() if b in (True, 'pass', 'passed')}
                    return set(v)
        return set(x)
    return sorted(passed(want) - passed(got))

sys.exit(main())
