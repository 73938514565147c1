"""Builds and validates the planted bugs of seeds_data.py (python3 tools/seeds.py [ID...]).

For each: writes seeded/<id>/, then in a scratch copy of /repo checks that the patch
applies, the tree builds, the stable tests pass and the demonstration fails, and that
the demonstration passes without the patch."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, pkg, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks))


exec(open(os.path.join(V, 'tools', 'seeds_data.py')).read())

DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on
cp go.mod "$w/m.mod" && cp go.sum "$w/m.sum" || exit 1
go mod edit -exclude=docker.io/go-docker@v1.0.0 "$w/m.mod" || exit 1
export GOFLAGS="-modfile=$w/m.mod -mod=readonly"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$w/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$w/o.json" -run '^TestDemo$' ./%(pkg)s
'''


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def main(ids):
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    bad = 0
    for s in S:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        if not ids and os.path.exists(os.path.join(d, 'patch.diff')):
            continue
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            r = os.path.join(w, 'repo')
            subprocess.run(['cp', '-a', '/repo', r], check=True)
            run(['git', 'checkout', '-q', '--', '.'], r)
            open(os.path.join(d, 'demo_test.go'), 'w').write(s['demo'].lstrip())
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(pkg=s['pkg']))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = run([os.path.join(d, 'demo.sh')], r)
            msg = []
            if a.returncode != 0:
                msg.append('demo fails on the unchanged tree:\n' + (a.stdout + a.stderr)[-1500:])
            for f, old, new in s['edits']:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != 1:
                    msg.append('edit of %s matches %d times' % (f, t.count(old)))
                open(p, 'w').write(t.replace(old, new))
            diff = run(['git', 'diff'], r).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off')
            shutil.copy(r + '/go.mod', w + '/m.mod')
            shutil.copy(r + '/go.sum', w + '/m.sum')
            subprocess.run(['go', 'mod', 'edit', '-exclude=docker.io/go-docker@v1.0.0', w + '/m.mod'], env=env, check=True)
            env['GOFLAGS'] = '-modfile=%s/m.mod -mod=readonly' % w
            b = run(['go', 'build', './...'], r, env)
            if b.returncode:
                msg.append('does not build: ' + b.stderr[-800:])
            t = run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], r, env)
            failed = set()
            for l in t.stdout.split('\n'):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get('Action') == 'fail' and e.get('Test'):
                    failed.add(e['Package'] + '/' + e['Test'])
            if failed & stable:
                msg.append('stable tests fail: %s' % sorted(failed & stable)[:5])
            a = run([os.path.join(d, 'demo.sh')], r)
            if a.returncode == 0:
                msg.append('demo passes with the patch')
            elif 'build failed' in a.stdout + a.stderr:
                msg.append('demo does not build: ' + (a.stdout + a.stderr)[-800:])
            print(s['id'], s['prop'], 'OK' if not msg else 'BAD\n  ' + '\n  '.join(msg))
            bad += bool(msg)
        finally:
            shutil.rmtree(w)
    return bad


sys.exit(main(sys.argv[1:]))
