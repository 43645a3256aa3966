#!/usr/bin/env python3
"""Which planted bugs change no line of the original repository (base commit given)?"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = 'b606dea'
own = set(subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--abbrev=8', base + '..HEAD'], capture_output=True, text=True).stdout.split())
blame = {}
for b in sorted(os.listdir(V + '/seeded')):
    f = None
    n = own_n = 0
    for l in open('%s/seeded/%s/patch.diff' % (V, b)):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            if f not in blame:
                blame[f] = [x[:8] in own for x in subprocess.run(['git', '-C', '/repo', 'blame', '--abbrev=7', '-s', f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith('@@'):
            k = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            own_n += blame[f][k]
            k += 1
        elif l.startswith(' '):
            k += 1
    if own_n or not n:
        print(b, 'removed', n, 'of own commits', own_n)
