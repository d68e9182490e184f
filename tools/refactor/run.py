#!/usr/bin/env python3
"""run.py FILE.py [Cxx...] - apply all edits of FILE (R = [(path, old, new)]) to
a scratch copy of /repo and run the quick checks there: all must stay quiet."""
import sys, os, subprocess
ns = {}; exec(open(sys.argv[1]).read(), ns)
copy = '/tmp/s/rf_%d' % os.getpid()
subprocess.run(['cp', '-a', '/repo', copy], check=True)
try:
    for path, old, new in ns['R']:
        p = copy + '/' + path; t = open(p).read()
        if t.count(old) != 1: sys.exit('BAD %s %d %r' % (path, t.count(old), old[:80]))
        open(p, 'w').write(t.replace(old, new))
    r = subprocess.run('. /opt/vp/env.sh; go1.24 build ./...', cwd=copy, shell=True, executable='/bin/bash', capture_output=True, text=True)
    print(r.stdout + r.stderr)
    if r.returncode: sys.exit('does not build')
    for prop in sys.argv[2:] or ['C%02d' % i for i in range(1, 26)]:
        r = subprocess.run(['python3', 'check.py', prop, 'quick'], cwd='/verif', env=dict(os.environ, VERIF_REPO=copy), capture_output=True, text=True)
        print(prop, 'quiet' if r.returncode == 0 else 'ALARM %d\n%s' % (r.returncode, (r.stdout + r.stderr)[-1500:]), flush=True)
finally:
    subprocess.run(['rm', '-rf', copy])
