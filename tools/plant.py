#!/usr/bin/env python3
"""Makes one planted change: plant.py SPEC.py

SPEC.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS and DEMO (a Go
main package, run inside the module through an overlay). The change is confirmed
in a scratch copy: it builds, the existing tests pass, and the demonstration
fails with it and passes without it. Only then is /verif/seeded/ID written."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID, PROP, EDITS = ns['ID'], ns['PROP'], ns['EDITS']
RACE = ns.get('RACE', False)
RUNS = ns.get('RUNS', 1)
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
tmp = tempfile.mkdtemp(prefix='plant')
try:
    w = tmp + '/repo'
    subprocess.check_call(['cp', '-a', '/repo', w])
    for f, old, new in EDITS:
        s = open(f'{w}/{f}').read()
        if s.count(old) != 1:
            sys.exit(f'{ID}: {f}: old text found {s.count(old)} times')
        open(f'{w}/{f}', 'w').write(s.replace(old, new))
    patch = subprocess.check_output(['git', '-C', w, 'diff', 'HEAD'])
    d = tmp + '/seed'
    os.mkdir(d)
    open(d + '/patch.diff', 'wb').write(patch)
    os.mkdir(d + '/demo')
    open(d + '/demo/main.go', 'w').write(ns['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Runs demo/main.go as a package of the module in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<EOF
{"Replace": {"$PWD/zz_demo/main.go": "$D/demo/main.go"}}
EOF
export TMPDIR=$T
go build %s-overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 3
cd "$T" && %stimeout 200 ./demo
''' % ('-race ' if RACE else '', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': PROP, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    def run(*a, **k):
        r = subprocess.run(a, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
        return r.returncode, r.stdout.decode(errors='replace')
    rc, out = run('go', 'build', './...')
    if rc: sys.exit(f'{ID}: does not build\n{out}')
    rc, out = run('go', 'test', '-json', '-vet=off', '-count=1', './...')
    passed = set(); failed = set()
    for l in out.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get('Test') and j['Action'] in ('pass', 'fail'):
            (passed if j['Action'] == 'pass' else failed).add(j['Package'] + ' ' + j['Test'])
    if failed or rc: sys.exit(f'{ID}: tests fail: {sorted(failed)[:5]}')
    for i in range(RUNS):
        rc, out = run('bash', d + '/demo.sh')
        if rc == 0 or rc == 3: sys.exit(f'{ID}: demo exits {rc} with the change (run {i})\n{out[-2000:]}')
    bad = out
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
    for i in range(RUNS):
        rc, out = run('bash', d + '/demo.sh')
        if rc != 0: sys.exit(f'{ID}: demo exits {rc} without the change (run {i})\n{out[-2000:]}')
    dst = '/verif/seeded/' + ID
    if os.path.isdir(dst): shutil.rmtree(dst)
    shutil.copytree(d, dst)
    print(f'{ID}: planted ({len(passed)} tests pass); demo says: {bad.strip()[-200:]}')
finally:
    shutil.rmtree(tmp)
