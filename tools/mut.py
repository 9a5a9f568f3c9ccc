#!/usr/bin/env python3
"""Mutation run (development tool): mut.py OUT.jsonl SEED N WORKERS [file-substring...]
For every sampled change that compiles and passes the tests of its package, the
quick checks of the properties anchored in the file are run until one objects."""
import json, os, random, subprocess, sys, threading, time, queue, shutil
OUT, SEED, N, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
SUB = sys.argv[5:]
V = '/verif'
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env['PATH']
if not os.path.exists('/tmp/mutbin'):
    subprocess.check_call(['go', 'build', '-o', '/tmp/mutbin', V + '/tools/mut/main.go'], env=env)
props = {}
cost = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    for f in p['anchors']['files']:
        if not f.endswith('.go'):
            for x in os.listdir('/repo/' + f):
                if x.endswith('.go') and not x.endswith('_test.go'): props.setdefault(f + '/' + x, []).append(p['id'])
        else:
            props.setdefault(f, []).append(p['id'])
    try: cost[p['id']] = json.load(open(f"{V}/evidence/{p['id']}.json")).get('wall_s', 9)
    except Exception: cost[p['id']] = 9
muts = []
done = set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)['desc'])
for f in sorted(props):
    if SUB and not any(s in f for s in SUB): continue
    for l in subprocess.check_output(['/tmp/mutbin', f], cwd='/repo', env=env).decode().splitlines():
        m = json.loads(l); m['file'] = f
        if m['desc'] not in done: muts.append(m)
random.Random(SEED).shuffle(muts)
print(len(muts), 'mutants')
q = queue.Queue()
for m in muts[:N]: q.put(m)
lock = threading.Lock()
def work(i):
    w = f'/tmp/mut/w{i}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        src = open('/repo/' + m['file'], 'rb').read()
        open(f"{w}/{m['file']}", 'wb').write(src[:m['off']] + m['new'].encode() + src[m['off'] + m['len']:])
        t = time.time()
        r = subprocess.run(['go', 'build', './...'], cwd=w, env=env, capture_output=True)
        if r.returncode: m['res'] = 'build'
        else:
            try:
                r = subprocess.run(['go', 'test', '-vet=off', '-timeout', '60s', './...'], cwd=w, env=env, capture_output=True, timeout=120)
                m['res'] = 'tests' if r.returncode else ''
            except subprocess.TimeoutExpired: m['res'] = 'tests'
        m['tt'] = round(time.time() - t, 1)
        if not m['res']:
            m['res'] = 'SURVIVED'; m['note'] = {}
            for p in sorted(props[m['file']], key=lambda p: cost[p]):
                t = time.time()
                try:
                    r = subprocess.run([V + '/bin/gosym', 'check', '-id', p, '-repo', w, '-j', str(max(2, 8 // W)), '-budget', '150'], cwd=V, env=dict(env, GOSYM_EVID='/tmp/mut/ev%d' % i), capture_output=True, timeout=300)
                    out = r.stdout.decode(errors='replace'); rc = r.returncode
                except subprocess.TimeoutExpired: rc, out = 'timeout', ''
                if rc == 1:
                    m['res'] = 'killed'; m['by'] = p; m['kt'] = round(time.time() - t, 1); break
                n = [x for x in out.splitlines() if x.startswith(p + ' quick')]
                if rc or not n or 'complete=true' not in n[0] or 'unconfirmed=0' not in n[0]: m['note'][p] = (rc, n[0] if n else out[-300:])
        open(f"{w}/{m['file']}", 'wb').write(src)
        with lock:
            open(OUT, 'a').write(json.dumps(m) + '\n')
            if m['res'] in ('SURVIVED',): print(m['res'], m['desc'], list(m['note']), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
for t in ts: t.start()
for t in ts: t.join()
