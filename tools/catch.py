#!/usr/bin/env python3
"""catch.py [BUG[=Cxx,Cyy]...]: runs checks against copies of /repo carrying the planted bugs, prints which caught which."""
import json
import os
import subprocess
import sys
import queue
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = int(os.environ.get('WT', '3'))
pool = queue.Queue()


def sh(cmd, cwd='/', env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def one(job):
    bug, ids = job
    k = pool.get()
    try:
        w = '/tmp/ct%d' % k
        d = os.path.join(V, 'seeded', bug)
        if not os.path.isdir(w):
            sh(['git', 'clone', '-q', '/repo', w])
            if os.path.exists('/repo/Cargo.lock'):
                sh(['cp', '/repo/Cargo.lock', w])
        sh(['git', 'fetch', '-q', '/repo', 'HEAD'], w)
        sh(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'], w)
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], w)
        if rc:
            print(bug, 'does not apply', o)
            return
        for i in ids:
            env = dict(os.environ, VERIF_REPO=w, VERIF_OUT='/tmp/co%d' % k, VERIF_BUILD='/tmp/cb%d' % k)
            os.makedirs('/tmp/co%d/evidence' % k, exist_ok=True)
            os.makedirs('/tmp/co%d/replay' % k, exist_ok=True)
            rc, o = sh([sys.executable, os.path.join(V, 'check.py'), i], V, env)
            kinds = sorted({l.split()[1] for l in o.splitlines() if l.startswith('--- ')})
            ok = rc == 1 and 'VIOLATION property=' + i in o
            print('%-22s %s %s rc=%d %s' % (bug, i, 'CAUGHT' if ok else 'MISSED', rc, ' '.join(kinds)), flush=True)
            open('/tmp/catch.%s.%s' % (bug, i), 'w').write(o)
    finally:
        pool.put(k)


for k in range(W):
    pool.put(k)
jobs = []
for a in sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
    b, _, ids = a.partition('=')
    p = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))['property']
    jobs.append((b, ids.split(',') if ids else [p]))
with ThreadPoolExecutor(W) as ex:
    list(ex.map(one, jobs))
