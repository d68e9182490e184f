#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl [slots] - which mutants pass the tests of the
repository that are near and also a shallow run of the checks."""
import json, os, queue, shutil, subprocess, sys, threading, time
muts = [json.loads(l) for l in open(sys.argv[1])]
OUT = sys.argv[2]; slots = int(sys.argv[3]) if len(sys.argv) > 3 else 7
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        r = json.loads(l); done.add((r['file'], r['off'], r['end'], r['new']))
base = '/tmp/s/am'
shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
lock = threading.Lock()
VERIF = '/verif'
CORE = 'C14 C13 C12 C09 C04 C02 C07 C01 C22 C25 C08 C23 C03 C10 C21 C06 C05 C11 C20'.split()
CONV = 'C17 C19 C15 C16 C18'.split()
env = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOMAXPROCS='2')
for k in list(env):
    if k.startswith('OTEL_') or k.startswith('LS_'): env.pop(k)

def sh(cmd, cwd, timeout=400):
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait()
            return 124, 'TIMEOUT'
    finally:
        pass

def one(slot, m):
    w = '%s/%d/w' % (base, slot)
    f = w + '/' + m['file']
    src = open(f, 'rb').read()
    try:
        open(f, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
        pkg = './' + os.path.dirname(m['file'])
        rc, o = sh(['go1.24', 'build', pkg], w)
        if rc: return 'nobuild', ''
        tests = [[pkg]]
        if pkg.startswith('./lightstep/sdk/metric') or pkg.startswith('./lightstep/sdk/internal'):
            if 'exporters' in pkg or 'export' in pkg or 'sdk/internal' in pkg:
                tests.append(['./lightstep/sdk/metric/exporters/...', './lightstep/sdk/metric/internal/export', './lightstep/sdk/trace/...'])
            else:
                tests.append(['./lightstep/sdk/metric', './lightstep/sdk/metric/internal/viewstate', './lightstep/sdk/metric/internal/syncstate', './lightstep/sdk/metric/internal/asyncstate'])
        for t in tests:
            rc, o = sh(['go1.24', 'test', '-vet=off', '-count=1', '-p', '2', '-timeout', '100s'] + t, w, 200)
            if rc and 'TestHostCPU' not in o: return 'tests', ''
        s = '%s/%d' % (base, slot)
        core = pkg.startswith('./lightstep/sdk/metric') and 'exporters' not in pkg or 'instrumentation' in pkg or 'sdk/internal' in pkg
        conv = 'exporters' in pkg or 'export' in pkg or 'sdk/internal' in pkg or pkg.startswith('./launcher') or pkg.startswith('./pipelines') or 'sdkinstrument' in pkg
        for kind, on, props in (('core', core, CORE), ('conv', conv, CONV)):
            if not on: continue
            od = s + '/o_' + kind
            shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
            cmd = ['/tmp/s/instr', '-repo', w, '-out', od]
            if kind == 'core':
                cmd += ['-roots', 'lightstep/sdk/metric,lightstep/sdk/internal,lightstep/instrumentation', '-exclude', 'lightstep/sdk/metric/example,lightstep/sdk/metric/exporters']
            pk = 'lightstep/sdk/metric/verifmc/' + kind
            cmd += ['-add', 'verifshim=' + VERIF + '/shim', '-add', 'lightstep/sdk/metric/verifmc/mc=' + VERIF + '/mc/mc', '-add', pk + '=' + VERIF + '/mc/' + kind]
            if kind == 'conv': cmd += ['-add', 'launcher=' + VERIF + '/mc/launcheradd']
            rc, o = sh(cmd, s)
            for g in ('go.mod', 'go.sum'): shutil.copy(w + '/' + g, od)
            rc, o = sh(['go1.24', 'build', '-p', '2', '-overlay', od + '/overlay.json', '-modfile', od + '/go.mod', '-o', s + '/' + kind, './' + pk], w)
            if rc: return 'corebuild', o[-300:]
            for p in props:
                os.makedirs(s + '/tmp', exist_ok=True)
                rc, o = sh([s + '/' + kind, '-prop', p, '-bound', '0', '-each', '2500ms'], s + '/tmp', 300)
                if rc or '"violation"' in o: return 'caught', '%s %s' % (p, 'rc=%d' % rc if rc else '')
        return 'MISSED', ''
    finally:
        open(f, 'wb').write(src)

def worker(slot, q):
    os.makedirs('%s/%d' % (base, slot))
    subprocess.run(['cp', '-a', '/repo', '%s/%d/w' % (base, slot)], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        t = time.time()
        try: r, d = one(slot, m)
        except Exception as e: r, d = 'error', repr(e)
        with lock:
            open(OUT, 'a').write(json.dumps(dict(m, result=r, detail=d, s=round(time.time() - t, 1))) + '\n')

q = queue.Queue()
for m in muts:
    if (m['file'], m['off'], m['end'], m['new']) not in done: q.put(m)
ts = [threading.Thread(target=worker, args=(i, q)) for i in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base, ignore_errors=True)
