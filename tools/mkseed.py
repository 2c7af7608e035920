#!/usr/bin/env python3
"""mkseed.py FILE.py: each FILE.py calls seed(...) to plant a bug in a scratch copy, confirm it and keep it under seeded/."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
W = '/tmp/sw/repo'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of the package in the current directory, which is left as it is.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$t/ov.json"
timeout 250 go test -overlay "$t/ov.json" -vet=off -count=1 -run '^TestZZDemo$' . > "$t/out" 2>&1
r=$?
tail -n 20 "$t/out"
grep -q '^ok' "$t/out" || r=1
rm -r -- "$t"
exit $r
'''
def run(cmd, cwd): return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
def fresh():
    if os.path.exists(W): shutil.rmtree(W)
    shutil.copytree('/repo', W, symlinks=True)
def seed(id, prop, file, edits, needs, breaks, demo, imports=('testing',), only=None):
    if ONLY and id not in ONLY: return
    fresh()
    p = os.path.join(W, file); s = open(p).read()
    for old, new in edits:
        assert s.count(old) == 1, (id, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)
    diff = run(['git', 'diff'], W).stdout
    r = run(['go', 'build', './...'], W)
    if r.returncode: print(id, 'BUILD', r.stderr); return
    ok = set(); fail = set()
    for l in run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], W).stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Test') and e['Action'] in ('pass', 'fail'): (ok if e['Action'] == 'pass' else fail).add(e['Package'] + '/' + e['Test'])
    bad = [t for t in STABLE if t.startswith('github.com/tdewolff/font/') and t in fail]
    if bad: print(id, 'TESTS FAIL', bad[:3]); return
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    imp = ''.join('\t"%s"\n' % i for i in imports)
    open(d + '/demo_test.go', 'w').write('package font\n\nimport (\n%s)\n\n%s' % (imp, demo.lstrip('\n')))
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run([d + '/demo.sh'], cwd='/repo', env=ENV, capture_output=True, text=True)
    b = subprocess.run([d + '/demo.sh'], cwd=W, env=ENV, capture_output=True, text=True)
    if a.returncode or not b.returncode:
        print(id, 'DEMO', a.returncode, b.returncode, a.stdout[-1500:] if a.returncode else b.stdout[-800:]); shutil.rmtree(d); return
    print(id, 'kept:', (b.stdout.strip().splitlines() or [''])[0][:120])
ONLY = sys.argv[2:]
exec(open(sys.argv[1]).read())
shutil.rmtree(W, ignore_errors=True)
