"""Builds generated crates against /repo, runs them under their monitors, and turns what was observed into a verdict."""
import fcntl
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
OUT = os.environ.get('VERIF_OUT', VERIF)  # evidence/ and replay/ go here
CORES = 8


class NoAnswer(Exception):
    """the harness could not decide: neither held nor violated"""


def sh(cmd, cwd=None, env=None, timeout=None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, limit_as=None, cpu=None):
    e = dict(os.environ)
    e.update(env or {})

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as:
            resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
        # recursive definitions nest as deep as the input is long
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        want = 512 << 20
        resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout, stderr=stderr, preexec_fn=pre, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, b'', b'timeout'
    return p.returncode, o or b'', r or b''


def write(path, text):
    """leave unchanged files alone so that cargo does not rebuild"""
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v
    return a


class Shard:
    """one generated binary"""

    def __init__(self, name, crate, runner=(), weight=1):
        self.name = name
        self.crate = crate  # progen.Crate
        self.runner = list(runner)
        self.src = crate.main()
        self.edition = None  # None: 2021


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier != 'thorough'
        self.dir = os.path.join(BUILD, pid)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(self.dir, '.lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.cov = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.features = {}
        self.peak = {}
        self.phases = {}
        self.assumptions = []
        self.rule = ''

    # ------------------------------------------------------------ building
    def rt(self, where):
        """copy of the runtime library whose dependency path points at the tree under check"""
        d = os.path.join(where, 'rt')
        for root, _, files in os.walk(os.path.join(VERIF, 'rt')):
            for f in files:
                p = os.path.join(root, f)
                with open(p) as fh:
                    t = fh.read()
                rel = os.path.relpath(p, os.path.join(VERIF, 'rt')).replace('Cargo.toml.in', 'Cargo.toml')
                write(os.path.join(d, rel), t.replace('@REPO@', REPO))
        return d

    def workspace(self, name, shards, features='"std"', extra='', repo_default=True):
        d = os.path.join(self.dir, name)
        # sources of an earlier run must not be built
        if os.path.isdir(os.path.join(d, 'src')):
            shutil.rmtree(os.path.join(d, 'src'))
        os.makedirs(os.path.join(d, 'src'), exist_ok=True)
        self.rt(self.dir)
        toml = '[package]\nname="gen"\nversion="0.1.0"\nedition="2021"\nautobins=false\n[workspace]\n[dependencies]\nrt={path="../rt",features=[%s]}\nnom-derive={path="%s"%s}\n%s' % (
            features, REPO, '' if repo_default else ',default-features=false,features=[%s]' % features, extra)
        toml += '[profile.dev]\ndebug=0\nincremental=false\n[profile.dev.package.rt]\nopt-level=2\n[profile.release]\nincremental=false\ndebug=0\nopt-level=3\noverflow-checks=false\ncodegen-units=4\n'
        toml += '[[bin]]\nname="base"\npath="src/base.rs"\n'
        for s in shards:
            toml += '[[bin]]\nname="%s"\npath="src/%s.rs"\n' % (s.name, s.name) + ('edition="%s"\n' % s.edition if s.edition else '')
            write(os.path.join(d, 'src', s.name + '.rs'), s.src)
        write(os.path.join(d, 'src', 'base.rs'), 'fn main() { let _ = <u8 as rt::nom_derive::Parse<&[u8]>>::parse_be(&[1]); }\n')
        write(os.path.join(d, 'Cargo.toml'), toml)
        return d

    def build(self, name, shards, features='"std"', release=False, toolchain=None, rustflags='', target=None, repo_default=True, cmd='build', env=None, config=None):
        """returns {shard name: executable}; compile failures of generated code become violations
        config: name of a feature configuration in which the library has to build because it does in another one"""
        t = time.time()
        d = self.workspace(name, shards, features, repo_default=repo_default)
        e = {'CARGO_TARGET_DIR': os.path.join(d, 'target'), 'CARGO_TERM_COLOR': 'never'}
        if rustflags:
            e['RUSTFLAGS'] = rustflags
        e.update(env or {})
        base = ['cargo'] + (['+' + toolchain] if toolchain else [])
        args = ['build', '--offline', '--keep-going', '--bins', '--message-format=json', '-j', str(CORES)]
        if release:
            args.append('--release')
        if target:
            args += ['--target', target]
        rc, out, err = sh(base + args, cwd=d, env=e, timeout=800)
        if rc is None:
            raise NoAnswer('build timed out')
        exes, errors = {}, {}
        for l in out.decode('utf8', 'replace').splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact' and m.get('executable'):
                exes[m['target']['name']] = m['executable']
            elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error' and m['target']['name'] in [s.name for s in shards]:
                errors.setdefault(m['target']['name'], []).append(m['message'])
            elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error' and m['message'].get('spans'):
                errors.setdefault(None, []).append(m['message'])
        self.phases['build ' + name] = round(time.time() - t, 1)
        self.build_stderr = err.decode('utf8', 'replace')
        if 'base' not in exes:
            if config and errors.get(None):
                msgs = errors[None][:4]
                self.violation('compile', {'what': 'the library does not build ' + config, 'shard': name, 'errors': [{'error': m['message'], 'text': (m.get('rendered') or '')[:1500]} for m in msgs], 'main': ''})
                return {}
            raise NoAnswer('the library itself does not build:\n' + err.decode('utf8', 'replace')[-3000:])
        for s in shards:
            if s.name in exes:
                continue
            msgs = [m for m in errors.get(s.name, []) if m.get('spans')]
            if not msgs:
                raise NoAnswer('shard %s did not build and rustc gave no located error:\n%s' % (s.name, err.decode('utf8', 'replace')[-3000:]))
            self.compile_violation(s, msgs)
        return exes

    def compile_violation(self, s, msgs):
        lines = s.src.split('\n')
        hit = []
        for m in msgs[:4]:
            sp = [x for x in m['spans'] if x['is_primary']] or m['spans']
            x = sp[0]
            while x.get('expansion') and x['expansion'] and x['expansion'].get('span'):
                x = x['expansion']['span']
            n = x['line_start']
            hit.append({'error': m['message'], 'line': n, 'text': '\n'.join(lines[max(0, n - 6):n + 6]), 'rendered': (m.get('rendered') or '')[:1500]})
        self.violation('compile', {'what': 'a legal definition does not compile', 'shard': s.name, 'errors': hit, 'main': s.src})

    # ------------------------------------------------------------ running
    def run_shard(self, exe, s, extra=(), label='', limit_as=3 << 30, env=None, bases=None, timeout=600):
        out = os.path.join(self.dir, 'out-%s%s.json' % (s.name, label))
        for p in (out, out + '.hang'):
            if os.path.exists(p):
                os.remove(p)
        cmd = [exe, '--seed', str(self.seed), '--out', out, '--secs', str(240 if self.quick else int(timeout * 0.7))] + s.runner + list(extra)
        rc, _, err = sh(cmd, stdout=subprocess.DEVNULL, timeout=timeout, limit_as=limit_as, env=env)
        err = err.decode('utf8', 'replace')
        if rc is None:
            return ('inconclusive', 'wall clock limit', None)
        if rc == 77 and os.path.exists(out + '.hang'):
            return ('hang', open(out + '.hang').read(), None)
        if rc == 0 and os.path.exists(out):
            return ('ok', '', json.load(open(out)))
        if rc < 0 and -rc != signal.SIGKILL or 'AddressSanitizer' in err or 'memory allocation of' in err or 'stack overflow' in err:
            # died inside a call? run again, noting each case before it is executed
            tr = out + '.trace'
            rc2, _, err2 = sh(cmd + ['--trace', tr], stdout=subprocess.DEVNULL, timeout=timeout, limit_as=limit_as, env=env)
            case = open(tr).read() if os.path.exists(tr) else ''
            err2 = err2.decode('utf8', 'replace')
            if rc2 is not None and rc2 != 0 and rc2 != -signal.SIGKILL and case:
                return ('crash', case, 'exit status %s\n%s' % (rc2, err2[-2500:]))
            return ('inconclusive', 'died with %s, did not die again: %s' % (rc, err[-800:]), None)
        return ('inconclusive', 'runner ended with %s: %s' % (rc, err[-1500:]), None)

    def run(self, exes, shards, extra=(), label='', **kw):
        t = time.time()
        todo = [s for s in shards if s.name in exes]
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda s: self.run_shard(exes[s.name], s, extra, label, **kw), todo))
        for s, (st, text, o) in zip(todo, res):
            if st == 'ok':
                self.take(s, o, label)
            elif st == 'crash':
                self.violation('crash', {'what': 'the process died inside a parser call', 'case': text, 'detail': o, 'shard': s.name, 'main': s.src, 'runner': s.runner + list(extra)})
            elif st == 'hang':
                self.violation('hang', {'what': 'a call used 20 s of processor time although its reference needs less than 40000 steps', 'case': text, 'shard': s.name, 'main': s.src, 'runner': s.runner + list(extra)})
            else:
                self.notes.append('%s%s: %s' % (s.name, label, text))
        self.phases['run' + label] = round(time.time() - t, 1)
        return res

    def take(self, s, o, label=''):
        self.samples += [dict(x, shard=s.name) for x in o.pop('samples', [])]
        recs = o.pop('records', [])
        for k in ('peak_bytes', 'biggest_alloc', 'longest_input'):
            self.peak[k] = max(self.peak.get(k, 0), o.pop(k, 0))
        merge(self.cov, o)
        for r in recs:
            r = dict(r)
            name = re.sub(r'_\d+$', '', r['prog'])
            r['definitions'] = self.closure(s.crate, r['prog'])
            r['shard'] = s.name
            r['runner'] = s.runner
            r['main'] = s.src
            self.violation(r['class'], r)

    @staticmethod
    def closure(crate, prog):
        items = {n: (src, sx) for n, src, sx in crate.items}
        n = prog if prog in items else re.sub(r'_\d+$', '', prog)
        out, todo = [], [n]
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen or n not in items:
                continue
            seen.add(n)
            src, sx = items[n]
            out.append(src)
            todo += re.findall(r'\((?:call|def) (\S+?)[ )]', sx)
        return out

    # ------------------------------------------------------------ verdict
    def violation(self, cls, rec):
        rec = dict(rec)
        rec['class'] = cls
        self.violations.append(rec)

    def known(self):
        """listed findings: lines `finding: property=<id> key=<regular expression> <what>`"""
        p = os.path.join(VERIF, 'known_findings.txt')
        out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.pid:
                    out.append((re.compile(m.group(2)), m.group(3).strip()))
        return out

    def finish(self):
        wall = time.time() - self.t0
        merged = self.cov
        ev = {
            'property': self.pid, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': int(merged.get('evaluations', 0)),
                'distinct_nontrivial': int(merged.get('distinct', 0)),
                'rule': self.rule,
                'samples': pick(self.samples, 8),
                'programs': int(merged.get('programs', 0)),
                'inconclusive_evaluations': int(merged.get('inconclusive', 0)),
                'user_events_compared': int(merged.get('events', 0)),
                'outcome_classes': merged.get('classes', {}),
                'reference_branches_reached': merged.get('coverage', {}),
                'monitor_evaluations': merged.get('monitors', {}),
                'generated_features': self.features,
                'extremes': self.peak,
                'phases_s': self.phases,
                'inconclusive': self.notes,
            },
            'assumptions': self.assumptions,
            'wall_s': round(wall, 1),
            'violations': len(self.violations),
        }
        for k, v in merged.items():
            if k not in ('evaluations', 'distinct', 'programs', 'inconclusive', 'events', 'classes', 'coverage', 'monitors', 'violations'):
                ev['coverage'][k] = v
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        known = self.known()
        shown = set()
        fresh = []
        for v in self.violations:
            sig = json.dumps({k: x for k, x in v.items() if k != 'main'}, sort_keys=True)
            k = [w for rx, w in known if rx.search(sig)]
            if k:
                if k[0] not in shown:
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k[0]))
                    shown.add(k[0])
            else:
                fresh.append(v)
        print('%s %s seed %d: %d evaluations, %d distinct, %d programs, %d events, %.0f s' % (
            self.pid, 'quick' if self.quick else 'thorough', self.seed, merged.get('evaluations', 0), merged.get('distinct', 0), merged.get('programs', 0), merged.get('events', 0), wall))
        if fresh:
            os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
            classes = {}
            for v in fresh:
                classes.setdefault(v['class'], []).append(v)
            # one line per class of violation, the first of each
            for n, (c, vs) in enumerate(sorted(classes.items())):
                v = min(vs, key=lambda v: len(v.get('input', '')) + len(str(v.get('definitions', ''))))
                path = os.path.join(OUT, 'replay', '%s-seed%d-%s.json' % (self.pid, self.seed, c))
                v = dict(v, property=self.pid, seed=self.seed, tier=ev['tier'], others=len(vs) - 1)
                with open(path, 'w') as f:
                    json.dump(v, f, indent=1)
                describe(v)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.notes:
            for x in self.notes:
                print('INCONCLUSIVE', x[:2000])
            # a shard that gave no answer leaves the property undecided
            return 2
        if merged.get('evaluations', 0) == 0:
            print('INCONCLUSIVE nothing was evaluated')
            return 2
        return 0


def describe(v):
    print('--- %s in %s' % (v['class'], v.get('prog') or v.get('shard') or ''))
    for k in ('what', 'note', 'method', 'errtype', 'args', 'input', 'predicted', 'observed', 'case', 'detail'):
        if v.get(k) not in (None, ''):
            print('    %s: %s' % (k, str(v[k])[:1200]))
    for e in v.get('errors', [])[:2]:
        print('    %s\n%s' % (e['error'], e['text']))
    for d in v.get('definitions', [])[:2]:
        print('    | ' + d[:1500].replace('\n', '\n    | '))


def pick(xs, n):
    if len(xs) <= n:
        return xs
    step = len(xs) / n
    return [xs[int(k * step)] for k in range(n)]


def replay(path):
    """execute one recorded violation again"""
    v = json.load(open(path))
    c = Check('replay', 'quick', v['seed'])
    if 'main' not in v:
        print(json.dumps(v, indent=1)[:6000])
        return 2

    class S:
        pass
    s = S()
    s.name, s.src, s.runner, s.crate = 's', v['main'], v.get('runner', []), None
    cfg = v.get('config', {})
    exes = c.build('replay', [s], **cfg)
    if c.violations:
        describe(c.violations[0])
        return 1
    if v['class'] == 'crash' or v['class'] == 'hang':
        f = re.match(r'(\S+) (\d+) (\d+) \[(.*?)\] ?(\S*)', v['case'])
        args = ['--only', f.group(1), '--replay', '%s:%s:%s:%s' % (f.group(2), f.group(3), f.group(4).replace(' ', ''), f.group(5))]
    else:
        args = ['--only', v['prog'], '--replay', '%d:%d:%s:%s' % (v['method'], v['errtype'], ','.join(str(a) for a in v['args']), v['input'])]
    rc, out, err = sh([exes['s']] + [a for a in s.runner if a in ('--noalloc', '1')][:2] + (['--mons', 'reports'] if 'reports' in ' '.join(s.runner) else []) + args, stdout=subprocess.DEVNULL, limit_as=3 << 30, timeout=300)
    for d in v.get('definitions', []):
        print(d)
    print(err.decode('utf8', 'replace'))
    print('exit status', rc)
    return 1 if rc else 0
