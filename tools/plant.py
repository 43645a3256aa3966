#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]: tries planted bugs in scratch copies of /repo and keeps the confirmed ones in /verif/seeded.

BUGS.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo=main.rs text, needs, breaks)]."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the tree under test; exit 0: the property holds for the case shown in main.rs
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'find "$T" -delete' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nom-derive = { path = "$R"%s }
[profile.dev]
debug = 0
EOF
cd "$T" || exit 2
timeout 250 cargo run --offline -q
'''
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
pool = queue.Queue()


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def setup(k):
    w = '/tmp/wt%d' % k
    if not os.path.isdir(w):
        sh(['cp', '-a', '/repo', w], '/')
    sh(['git', 'fetch', '-q', '/repo', 'HEAD'], w)
    sh(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'], w)
    vp = '/tmp/vp%d' % k
    os.makedirs(vp, exist_ok=True)
    for f in ('env.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('cd /repo', 'cd ' + w).replace('. /opt/vp/env.sh', '. %s/env.sh' % vp)
        open(os.path.join(vp, f), 'w').write(t)
    pool.put(k)


def one(b):
    k = pool.get()
    w = '/tmp/wt%d' % k
    try:
        sh(['git', 'checkout', '-q', '--', '.'], w)
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                return b, 'edit matches %d times: %r' % (t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = os.path.join(V, 'seeded', b['id'])
        tmp = '/tmp/seed-%s' % b['id']
        os.makedirs(tmp, exist_ok=True)
        open(tmp + '/main.rs', 'w').write(b['demo'])
        open(tmp + '/demo.sh', 'w').write(b.get('demosh') or DEMO % b.get('feat', ''))
        rc, diff = sh(['git', 'diff'], w)
        open(tmp + '/patch.diff', 'w').write(diff)
        rc1, o1 = sh(['bash', tmp + '/demo.sh'], w)
        if rc1 == 0:
            return b, 'demo passes with the change'
        rc0, o0 = sh(['bash', tmp + '/demo.sh'], '/repo')
        if rc0 != 0:
            return b, 'demo fails on the unchanged tree: ' + o0[-1500:]
        rc, o = sh(['bash', '/tmp/vp%d/test.sh' % k, '/tmp/vp%d/out.json' % k], '/', 900)
        r = json.load(open('/tmp/vp%d/out.json' % k))
        ok = set(r.get('passed', r.get('pass', [])))
        miss = stable - ok
        if miss:
            return b, 'tests notice: %s' % sorted(miss)[:4]
        os.makedirs(d, exist_ok=True)
        for f in ('main.rs', 'demo.sh', 'patch.diff'):
            shutil.copy(os.path.join(tmp, f), os.path.join(d, f))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        return b, 'KEPT (demo: %s)' % o1.strip().split('\n')[-1][:150]
    except Exception as e:
        return b, 'EXC %r' % e
    finally:
        sh(['git', 'checkout', '-q', '--', '.'], w)
        pool.put(k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if len(sys.argv) > 2:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    n = int(os.environ.get('WT', '4'))
    for k in range(n):
        setup(k)
    with ThreadPoolExecutor(n) as ex:
        for b, res in ex.map(one, bugs):
            print(b['id'], b['property'], res, flush=True)


main()
