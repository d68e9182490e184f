#!/usr/bin/env python3
"""mkseed.py SEEDFILE.py [id...] - make /verif/seeded/<id> from a table, after
confirming in a scratch copy that the change builds, passes the tests of the
repository (stable ones) and that its demo tells it from the unchanged tree.

SEEDFILE.py defines SEEDS: list of dicts id, property, edits [(file, old, new)],
pkg (package directory of the demo test), demo (Go test source), needs, breaks,
optional flags (extra go test flags).
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the behaviour is right, nonzero otherwise.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cat > "$t/o.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$d/demo_test.go.txt"}}
EOF
go1.24 test -vet=off -count=1 -timeout 240s%(flags)s -overlay "$t/o.json" -run '^TestDemo' ./%(pkg)s
'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    spec = importlib.util.spec_from_file_location("s", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for s in m.SEEDS:
        if want and s['id'] not in want: continue
        d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
        w = d + '/w'
        try:
            sh(['cp', '-a', '/repo', w], '/')
            q = d + '/q'; os.makedirs(q)
            open(q + '/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], flags=' ' + s['flags'] if s.get('flags') else ''))
            os.chmod(q + '/demo.sh', 0o755)
            open(q + '/demo_test.go.txt', 'w').write(s['demo'])
            r = sh(['bash', q + '/demo.sh'], w)
            if r.returncode != 0:
                print(s['id'], 'DEMO FAILS ON UNCHANGED TREE'); print(r.stdout[-3000:]); continue
            for f, a, b in s['edits']:
                p = os.path.join(w, f); t = open(p).read()
                assert t.count(a) == 1, (s['id'], f, a, t.count(a))
                open(p, 'w').write(t.replace(a, b))
            r = sh('. /opt/vp/env.sh; go1.24 build ./...', w, executable='/bin/bash')
            if r.returncode != 0:
                print(s['id'], 'DOES NOT BUILD'); print(r.stdout[-3000:]); continue
            open(q + '/patch.diff', 'w').write(sh(['git', 'diff'], w).stdout)
            ok = 0
            for i in range(3):
                r = sh(['bash', q + '/demo.sh'], w)
                ok += r.returncode == 0
            if ok:
                print(s['id'], 'DEMO PASSES WITH THE PATCH', ok, 'of 3'); print(r.stdout[-3000:]); continue
            r = sh('. /opt/vp/env.sh; go1.24 test -json -vet=off -count=1 -p 1 ./... > %s/log; python3 /opt/vp/results.py %s/res.json gojson:%s/log' % (d, d, d), w, executable='/bin/bash')
            res = json.load(open(d + '/res.json'))
            bad = failed(base, res)
            for i in range(4):
                # Some tests depend on the load of the machine.
                if not bad or len(bad) > 12: break
                pk = sorted({'./' + t[len('github.com/lightstep/otel-launcher-go/'):].rsplit('/Test', 1)[0].split('/Test')[0] for t in bad})
                sh('. /opt/vp/env.sh; go1.24 test -json -vet=off -count=1 -p 1 %s > %s/log2; python3 /opt/vp/results.py %s/res2.json gojson:%s/log2' % (' '.join(pk), d, d, d), w, executable='/bin/bash')
                p2 = set(json.load(open(d + '/res2.json')).get('passed') or [])
                bad = [t for t in bad if t not in p2]
            # This one compares processor times and fails on a busy machine.
            if not any('instrumentation/host' in f for f, _, _ in s['edits']):
                bad = [t for t in bad if not t.endswith('instrumentation/host/TestHostCPU')]
            if bad:
                print(s['id'], 'TESTS FAIL', bad[:10]); continue
            json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(q + '/meta.json', 'w'), indent=1)
            dst = os.path.join(VERIF, 'seeded', s['id'])
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(q, dst)
            print(s['id'], 'KEPT', flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)

def failed(base, res):
    stable = base.get('stable') or base.get('passed') or base
    p = set(res.get('passed') or [])
    return [t for t in stable if t not in p]

main()
