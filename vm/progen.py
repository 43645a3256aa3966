"""Seeded generator of definitions. A profile says which features to favour; every choice comes from the seed."""
import random
from model import *

HOSTILE = ['offset', 'start', 'pos', 'align', 'skip', 'new_offset', 'offset_u', 'selector', 'input', 'rem', 'data', 'res', 'err', 'val', 'len', 'x', 'e', 'n', 'name', 'parser', 'struct_defs', 'le', 'be', 'endianness', 'offset_i', 'a', 'b', 's', 'take', 'count', 'parse', '_pad', '_reserved', '__x', '_a1', 'x_', 'Upper', 'CONST', 'mixedCase', 'été', 'i2', 'value_', 'nom_', 'out', 'self_', 'error', 'ok', 'f', 'v', 'it']

DEFAULT = dict(
    nfields=(1, 6), depth=2,
    kinds=dict(infer=50, take=5, tag=4, value=4, parse=8, ignore=3, cond=6, count=7, lcount=4, complete=3, debug=2, verify=6, map=3, into=2),
    types=dict(int=60, float=6, str=4, opt=6, vec=4, arr=5, pair=0, probe=10, phantom=3, defn=12),
    p_field_endian=12, p_obj_endian=25, p_top_set=5, p_field_set=4, p_complete=7, p_dirs=25, p_ev=12, p_let=10, p_align=8, p_skip=8, p_move=5, p_errif=6,
    p_exact=3, p_args=10, p_hostile=10, p_tuple=30, p_unit=2, p_tl_exec=12, p_evx=10, p_generic=8, p_ilen=8, huge=6, p_read=12, p_built=12, p_rec=7, p_fixed=9, p_const=9, p_lt2=30, p_big=2, p_topdebug=0,
    objs=dict(struct=70, enum=22, fieldless=8), alloc=True, std=True, generic_errors=0,
)


def prof(**kw):
    p = dict(DEFAULT)
    for k in ('kinds', 'types', 'objs'):
        p[k] = dict(DEFAULT[k])
    for k, v in kw.items():
        if k in ('kinds', 'types', 'objs'):
            p[k].update(v)
        else:
            p[k] = v
    return p


def only(d, **kw):
    """all weights zero but the given ones"""
    r = {k: 0 for k in d}
    r.update(kw)
    return r


class Ctx:
    def __init__(self):
        self.vars = []  # (name, type) type as in model, ('i64',) for let variables
        self.free = set()
        self.mut = {}  # assignable names: type they are cast to


class G:
    def __init__(self, seed, p, prefix=''):
        self.r = random.Random(seed)
        self.p = p
        self.prefix = prefix
        self.defs = {}
        self.order = []
        self.nid = 0
        self.ndef = 0
        self.nlet = 0
        self.features = {}

    # ------------------------------------------------ helpers
    def pc(self, percent):
        return self.r.random() * 100 < percent

    def pick(self, w):
        ks = [k for k in w if w[k] > 0]
        return self.r.choices(ks, [w[k] for k in ks])[0]

    def evid(self):
        self.nid += 1
        return self.nid

    def hit(self, f):
        self.features[f] = self.features.get(f, 0) + 1

    # ------------------------------------------------ expressions
    def intvar(self, cx, unsigned=False, maxw=16):
        c = [(n, t) for n, t in cx.vars if t[0] in ('int', 'i64', 'usize') and not (unsigned and (t[0] == 'i64' or (t[0] == 'int' and t[2]))) and (t[0] == 'i64' or t[0] == 'usize' or t[1] <= maxw)]
        if unsigned:
            c = [(n, t) for n, t in c if t[0] != 'i64']
        return self.r.choice(c) if c else None

    def seqvar(self, cx):
        c = [(n, t) for n, t in cx.vars if t[0] in ('vec', 'slice', 'str')]
        return self.r.choice(c) if c else None

    def optvar(self, cx):
        c = [(n, t) for n, t in cx.vars if t[0] == 'opt']
        return self.r.choice(c) if c else None

    def num64(self, cx, m, looks=True):
        """total i64 expression in 0..m"""
        r = self.r
        v = self.intvar(cx)
        q = self.seqvar(cx)
        k = r.randint(0, 9)
        if k <= 4 and v:
            e = Ex('(@%s@ as i64).rem_euclid(%d)' % (v[0], m), '(%% (v %s) %d)' % (v[0], m))
        elif k == 5 and q:
            e = Ex('(@%s@.len() as i64).rem_euclid(%d)' % (q[0], m), '(%% (len %s) %d)' % (q[0], m))
        elif k == 6 and looks and self.pc(self.p['p_ilen'] * 4):
            w = r.choice(['i', 'orig'])
            e = Ex('(@%s@.len() as i64).rem_euclid(%d)' % (w, m), '(%% %slen %d)' % ('i' if w == 'i' else 'o', m))
        elif k == 7 and v and m > 3:
            w = self.intvar(cx)
            e = Ex('((@%s@ as i64).rem_euclid(%d) + (@%s@ as i64).rem_euclid(%d))' % (v[0], m // 2 + 1, w[0], m // 2), '(+ (%% (v %s) %d) (%% (v %s) %d))' % (v[0], m // 2 + 1, w[0], m // 2))
        elif k == 8 and v:
            lo = r.randint(0, m - 1)
            e = Ex('core::cmp::min((@%s@ as i64).rem_euclid(%d), %d)' % (v[0], m, lo), '(min (%% (v %s) %d) %d)' % (v[0], m, lo))
        else:
            n = r.randint(0, m - 1)
            e = Ex('%di64' % n, n)
        return e

    def evx(self, e):
        i = self.evid()
        self.hit('evx')
        return Ex('rt::evx(%d, (%s) as i64)' % (i, e.rs), '(evx %d %s)' % (i, e.sx))

    def amount(self, cx, m=6, natural=True, evx=False, signed=False, lo=0, zero=True):
        """expression cast by the macro to usize/isize"""
        r = self.r
        k = r.randint(0, 11)
        v = self.intvar(cx)
        u = self.intvar(cx, unsigned=True, maxw=8)
        e = None
        if evx and self.pc(self.p['p_evx']):
            e = self.evx(self.num64(cx, m))
            if lo:
                e = Ex(e.rs + ' + %d' % lo, '(+ %s %d)' % (e.sx, lo))
            return e
        if natural and not signed and v and r.random() < 0.04:
            # now and then negative: the cast makes it huge
            h = r.randint(1, m)
            return Ex('(@%s@ as i64).rem_euclid(%d) - %d' % (v[0], m, h), '(- (%% (v %s) %d) %d)' % (v[0], m, h))
        if k <= 1 and v and natural and not signed:
            return Ex('@%s@' % v[0], '(v %s)' % v[0])
        if k <= 1 and v and signed:
            h = m // 2
            return Ex('(@%s@ as i64).rem_euclid(%d) - %d' % (v[0], m, h), '(- (%% (v %s) %d) %d)' % (v[0], m, h))
        if k <= 4 and u:
            # natural arithmetic of the variable's own type: the macro must cast the whole expression
            lo2 = max(lo, r.randint(0, 2))
            if r.random() < 0.3 and lo2 == 0:
                mask = r.choice([1, 3, 7])
                return Ex('@%s@ & %d' % (u[0], mask), '(%% (v %s) %d)' % (u[0], mask + 1))
            return Ex('@%s@ %% %d + %d' % (u[0], m, lo2), '(+ (%% (u %s) %d) %d)' % (u[0], m, lo2))
        if k == 5:
            s = self.intvar(cx, maxw=4)
            if s:
                a, b = r.randint(lo, m), r.randint(lo, m)
                t = r.randint(0, 5)
                return Ex('if @%s@ > %d { %d } else { %d }' % (s[0], t, a, b), '(+ (* (> (v %s) %d) %d) %d)' % (s[0], t, a - b, b))
        if k == 6:
            q = self.seqvar(cx)
            if q and natural:
                return Ex('@%s@.len()' % q[0], '(len %s)' % q[0])
        if k == 7 and u and not signed:
            c = r.randint(max(lo, 1), m)
            if u[1:2] and u[0] and lo == 0:
                return Ex('core::cmp::min(@%s@ as u64, %d)' % (u[0], c), '(umin (u %s) %d)' % (u[0], c))
        if k <= 9 and v:
            e = self.num64(cx, m)
            return Ex('%s + %d' % (e.rs, lo), '(+ %s %d)' % (e.sx, lo)) if lo else e
        n = r.randint(max(lo, 0 if zero else 1), max(m, lo))
        if signed and r.random() < 0.5:
            return Ex('-%d' % n, -n)
        if self.pc(self.p['huge']) and natural:
            if not signed and r.random() < 0.25:
                n = r.choice([-1, -2, -3, -9, -(1 << 63), -(1 << 31)])
                return Ex('(%di64)' % n if n != -(1 << 63) else 'i64::MIN', n)
            n = r.choice([255, 256, 257, 65535, 65536, 70000, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1])
            return Ex('%du64' % n, n)
        if n == 3 and r.random() < 0.5:
            return Ex('THREE', 3)
        return r.choice([Ex('%d' % n, n), Ex('%dusize' % n, n), Ex('0x%x' % n, n), Ex('{ let t = %d; t }' % n, n), Ex('(%d)' % n, n), Ex('%d + 0' % n, n), Ex('%du8' % n, n)] + ([Ex('1 + %d' % (n - 1), n), Ex('%d - 1' % (n + 1), n)] if n else []))

    def boolean(self, cx, evx=False, looks=True, depth=0):
        r = self.r
        if evx and self.pc(self.p['p_evx']):
            e = self.evx(self.num64(cx, 3))
            return Ex('%s != 0' % e.rs, '(not (== %s 0))' % e.sx)
        k = r.randint(0, 11)
        v = self.intvar(cx)
        v4 = self.intvar(cx, maxw=4)
        u = self.intvar(cx, unsigned=True, maxw=8)
        q = self.seqvar(cx)
        o = self.optvar(cx)
        if k <= 2 and v4:
            n = r.randint(0, 6)
            return r.choice([Ex('@%s@ > %d' % (v4[0], n), '(> (v %s) %d)' % (v4[0], n)), Ex('@%s@ <= %d' % (v4[0], n), '(not (> (v %s) %d))' % (v4[0], n)), Ex('%d < @%s@' % (n, v4[0]), '(> (v %s) %d)' % (v4[0], n))])
        if k <= 4 and v4:
            n = r.randint(0, 6)
            return r.choice([Ex('@%s@ == %d' % (v4[0], n), '(== (v %s) %d)' % (v4[0], n)), Ex('%d != @%s@' % (n, v4[0]), '(not (== (v %s) %d))' % (v4[0], n))])
        if k == 5 and u:
            return r.choice([Ex('@%s@ & 1 == 0' % u[0], '(== (%% (v %s) 2) 0)' % u[0]), Ex('@%s@ %% 3 != 1' % u[0], '(not (== (%% (u %s) 3) 1))' % u[0]), Ex('!(@%s@ & 1 == 1)' % u[0], '(not (== (%% (v %s) 2) 1))' % u[0])])
        if k == 6 and q:
            return Ex('@%s@.len() > 1' % q[0], '(> (len %s) 1)' % q[0])
        if k == 7 and o:
            return r.choice([Ex('@%s@.is_some()' % o[0], '(v %s)' % o[0]), Ex('@%s@.is_none()' % o[0], '(not (v %s))' % o[0])])
        if k == 8 and looks and self.pc(self.p['p_ilen'] * 4):
            n = r.randint(0, 6)
            return r.choice([Ex('@i@.len() > %d' % n, '(> ilen %d)' % n), Ex('@orig@.len() > %d' % n, '(> olen %d)' % n), Ex('@i@.is_empty()', '(== ilen 0)')])
        if k <= 10 and depth < 2 and v:
            a, b = self.boolean(cx, looks=looks, depth=depth + 1), self.boolean(cx, looks=looks, depth=depth + 1)
            if r.random() < 0.5:
                return Ex('(%s) && (%s)' % (a.rs, b.rs), '(and %s %s)' % (a.sx, b.sx))
            return Ex('(%s) || (%s)' % (a.rs, b.rs), '(or %s %s)' % (a.sx, b.sx))
        if v:
            m, n = r.randint(2, 5), r.randint(0, 1)
            return Ex('(@%s@ as i64).rem_euclid(%d) != %d' % (v[0], m, n), '(not (== (%% (v %s) %d) %d))' % (v[0], m, n))
        b = r.random() < 0.75
        return Ex('true' if b else 'false', int(b))

    def lie(self, e):
        """boolean that is mostly false (ErrorIf)"""
        return Ex('!(%s)' % e.rs, '(not %s)' % e.sx)

    def verify(self, ty, cx):
        r = self.r
        k = ty[0]
        n = r.randint(0, 6)
        if k in ('int', 'usize'):
            c = []
            big = k == 'usize' or ty[1] > 4
            if not big:
                c += [Ex('*@self@ > %d' % n, '(> self %d)' % n), Ex('*@self@ < %d' % (n + 60), '(> %d self)' % (n + 60)), Ex('%d <= *@self@' % n, '(not (> %d self))' % n), Ex('(%d..=%d).contains(@self@)' % (n, n + 90), '(and (not (> %d self)) (not (> self %d)))' % (n, n + 90))]
                c += [Ex('%d != *@self@' % n, '(not (== self %d))' % n), Ex('matches!(*@self@, 0 | 1 | 4..=90)', '(or (== self 0) (or (== self 1) (and (> self 3) (> 91 self))))')]
            c += [Ex('(*@self@ as i64).rem_euclid(%d) != %d' % (n + 2, 1), '(not (== (%% self %d) 1))' % (n + 2)), Ex('*@self@ != %d' % n, '(not (== self %d))' % n)]
            v = self.intvar(cx, maxw=4)
            if v:
                c += [Ex('*@self@ as i64 >= (@%s@ as i64).rem_euclid(3)' % v[0], '(not (> (%% (v %s) 3) self))' % v[0]), Ex('*@self@ as i64 != @%s@ as i64' % v[0], '(not (== self (v %s)))' % v[0])]
            e = r.choice(c)
            if k == 'int' and ty[1] > 8:
                e = Ex('(*@self@ as i64).rem_euclid(%d) != %d' % (n + 2, 1), '(not (== (%% self %d) 1))' % (n + 2))
            if '>' in e.sx and big:
                e = c[-1] if '>' not in c[-1].sx else Ex('*@self@ != %d' % n, '(not (== self %d))' % n)
        elif k in ('vec', 'str', 'slice'):
            t = ty_rs(ty, "'_", self.defs)
            t = {'slice': '[u8]', 'str': 'String'}.get(k, t)
            if k == 'slice':
                t = "&[u8]"
            e = r.choice([Ex('(|v: &%s| v.len() > %d)(@self@)' % (t, n % 2), '(> self %d)' % (n % 2)), Ex('(|v: &%s| v.len() != %d)(@self@)' % (t, n), '(not (== self %d))' % n)])
        elif k == 'opt':
            t = ty_rs(ty, "'_", self.defs)
            e = r.choice([Ex('(|v: &%s| v.is_some())(@self@)' % t, '(== self 1)'), Ex('(|v: &%s| v.is_none())(@self@)' % t, '(== self 0)')])
        else:
            return None
        if self.pc(self.p['p_evx']):
            i = self.evid()
            e = Ex('{ let t = %s; rt::evx(%d, t as i64) == 1 }' % (e.rs, i), '(== (evx %d %s) 1)' % (i, e.sx))
        return e

    # ------------------------------------------------ types
    def consumes(self, t):
        """at least one byte for every success?"""
        k = t[0]
        if k in ('int', 'float', 'str', 'usize', 'ld'):
            return True
        if k == 'probe':
            return t[1] != 'PZ'
        if k == 'arr':
            return t[1] > 0 and self.consumes(t[2])
        if k == 'pair':
            return self.consumes(t[1]) or self.consumes(t[2])
        if k == 'def':
            return 'consumes' in self.defs[t[1]].facts
        return False

    def gtype(self, d, depth=0, cx=None, elem=False):
        p = self.p
        w = dict(p['types'])
        if elem:
            w['pair'] = w['pair_elem'] = 0
        if not p['alloc']:
            w['vec'] = w['str'] = 0
        if depth >= 2:
            w['opt'] = w['vec'] = w['arr'] = w['pair'] = w['defn'] = 0
        if d.generic_errors:
            w['arr'] = 0
            if d.special() or d.setendian_top:
                w['str'] = 0  # the bound String needs is only added to impls of the trait, when its type is visible
        if depth > 0:
            w['phantom'] = 0
            if d.generic_errors:
                w['str'] = 0
            if w.get('pair_elem'):
                w['pair'] = w['pair_elem']
        w.pop('pair_elem', None)
        if depth == 0:
            w['pair'] = 0  # tuple types are not inferable as plain field types
        cand = self.nestable(d)
        if not cand:
            w['defn'] = 0
        k = self.pick(w)
        r = self.r
        if k == 'int':
            return r.choice(INTS + [U8, U8, U16, U16, U32, U64])
        if k == 'float':
            return ('float', r.choice([4, 8]))
        if k == 'str':
            return STR
        if k == 'opt':
            return ('opt', self.gtype(d, depth + 1, cx))
        if k == 'vec':
            return ('vec', self.gtype(d, depth + 1, cx))
        if k == 'arr':
            n = r.choice([0, 1, 2, 2, 3, 4, 5, 8])
            if not p['alloc']:
                t = r.choice(INTS + [('probe', 'PA'), ('probe', 'PB'), ('probe', 'PT'), ('float', 4)])
                return ('arr', n, t)
            c = [c for c in d.consts if c[1] == 'usize' and c[2] < 9]
            if c and r.random() < 0.7:
                n = Cn(c[-1][2], c[-1][0])
                self.hit('gen.const.len')
            t = self.gtype(d, depth + 1, cx, elem=True)
            return ('arr', n, t)
        if k == 'pair':
            return ('pair', self.gtype(d, depth + 1, cx), self.gtype(d, depth + 1, cx))
        if k == 'probe':
            return ('probe', r.choice(['PA', 'PA', 'PB', 'PC', 'PF', 'PF', 'PD', 'PZ', 'PL', 'PT'] + ([] if d.generic_errors else ['PG'])))
        if k == 'phantom':
            return ('phantom', r.choice([U8, STR] if p['alloc'] else [U8, U16]))
        if k == 'defn':
            n = r.choice(cand)
            dd = self.defs[n]
            a = []
            for _ in range(dd.tparams):
                a.append(self.gtype(d, depth + 1, cx) if depth < 1 else r.choice([U8, U16, U32, ('probe', 'PA')]))
            if d.generic_errors and any(x[0] in ('arr',) for y in a for x in subty(y)):
                a = [U16] * dd.tparams
            return ('def', n) + tuple(a)
        raise Exception(k)

    def nestable(self, d):
        return [n for n in self.order if not self.defs[n].special() and (not d.generic_errors or self.defs[n].generic_errors) and self.defs[n].level < 3 and not (d.generic_errors and 'str' in self.defs[n].facts)]

    # ------------------------------------------------ user parsers
    def uparser(self, d, cx, depth=0, length=False, evx=False):
        """(type, Rust text, spec) of a parser the user writes"""
        r = self.r
        ge = d.generic_errors
        k = r.randint(0, 12)
        if length:
            k = r.choice([0, 0, 0, 1, 1, 4])
        if k <= 2:
            t = r.choice([U8, U16, U32, U64] if length else INTS)
            m = r.randint(0, 2)
            rs = r.choice(['%s::%s', '<%s>::%s']) % (ty_rs(t), ['parse', 'parse_be', 'parse_le'][m])
            return t, rs, '(ty %s %d)' % (ty_sx(t), m)
        if k == 3 or (length and k == 1):
            w = r.choice([1, 2, 3, 4, 8]) if not length else r.choice([1, 2, 3, 4, 8])
            s = (not length) and r.random() < 0.3
            le = r.randint(0, 1)
            com = int(r.random() < 0.3)
            t = ('int', 4 if w == 3 else w, s)
            rs = 'nom::number::%s::%s_%s%d' % ('complete' if com else 'streaming', 'le' if le else 'be', 'i' if s else 'u', 8 * w)
            return t, rs, '(num %d %d %d %d)' % (w, s, le, com)
        if k == 4 and (length or r.random() < 0.6):
            return USIZE, 'p_varint', '(custom 22)'
        if k == 12:
            t = r.choice([U8, U16, U32, U64, ('probe', 'PL'), ('probe', 'PL')])
            m = r.randint(0, 2)
            return ('ld', t), 'LengthData::<%s, &[u8]>::%s' % (ty_rs(t), ['parse', 'parse_be', 'parse_le'][m]), '(ty (ld %s) %d)' % (ty_sx(t), m)
        if k == 5:
            n = r.randint(0, 4)
            return SLICE, 'nom::bytes::streaming::take(%dusize)' % n, '(take %d)' % n
        if k == 6 and depth == 0:
            t, rs, sx = self.uparser(d, cx, 1)
            c = self.boolean(cx)
            return ('opt', t), 'nom::combinator::cond(%s, %s)' % (c.rs, rs), '(condp %s %s)' % (c.sx, sx)
        if k == 7 and depth == 0:
            a, b = self.uparser(d, cx, 1), self.uparser(d, cx, 1)
            rs = r.choice(['(%s, %s)', 'nom::sequence::pair(%s, %s)']) % (a[1], b[1])
            return ('pair', a[0], b[0]), rs, '(pairp %s %s)' % (a[2], b[2])
        if k == 8 and depth == 0:
            q = r.random()
            if q < 0.2:
                return U8, 'p_fail', '(custom 23)'
            if q < 0.4:
                return U8, 'p_err', '(custom 24)'
            if q < 0.6:
                return SLICE, 'p_rest', '(custom 25)'
        c = [n for n in self.order if self.defs[n].special() and self.defs[n].level < 3 and ((ge and d.special() and self.defs[n].generic_errors) or (not ge and not self.defs[n].generic_errors))]
        if c and r.random() < 0.7:
            return self.callparser(d, r.choice(c), cx, evx)
        c = [n for n in self.nestable(d) if self.defs[n].tparams == 0]
        if c and r.random() < 0.5:
            n = r.choice(c)
            m = r.randint(0, 2)
            return ('def', n), '%s::%s' % (path(self.defs[n]), ['parse', 'parse_be', 'parse_le'][m]), '(ty %s %d)' % (ty_sx(('def', n)), m)
        if ge:
            t = r.choice(INTS)
            return t, '<%s>::parse_be' % ty_rs(t), '(ty %s 1)' % ty_sx(t)
        return U8, 'p_byte', '(custom 20)'

    def callparser(self, d, n, cx, evx=False):
        r = self.r
        dd = self.defs[n]
        m = r.randint(0, 2)
        rs = []
        sx = []
        if dd.kind == 'enum':
            a, b = self.selarg(dd.selkind, cx, evx)
            rs.append(a)
            sx += b
        for an, at in dd.args:
            e = self.num64(cx, 100)
            if evx and self.pc(self.p['p_evx']):
                e = self.evx(e)
            rs.append('(%s) as %s' % (e.rs, at))
            sx.append(e.sx)
        iv = r.choice(['i', 'x_in', 'input_', 'i'])
        if iv == 'i' and any('ilen' in x for x in sx):
            iv = 'x_in'  # the closure's own parameter would shadow the input variable
        meth = ['parse', 'parse_be', 'parse_le'][m]
        # with a closure
        txt = r.choice(['{ |%s| %s::%s(%s, %s) }', '|%s| %s::%s(%s, %s)']) % (iv, path(dd), meth, iv, ', '.join(rs))
        if txt.startswith('|'):
            txt = '(%s)' % txt
        return ('def', n), txt, '(call %s %d %s)' % (n, m, ' '.join(sx))

    def selarg(self, kind, cx, evx=False):
        """Rust expression and numeric argument(s) of a selector"""
        r = self.r
        v = self.intvar(cx)
        if kind in ('u8', 'i8', 'u16', 'i32', 'u64') and v and v[1][0] == 'int' and (kind == ty_rs(v[1])) and r.random() < 0.7:
            return '@%s@' % v[0], ['(v %s)' % v[0]]
        if v and v[1][0] == 'int' and r.random() < 0.5 and kind in ('u8', 'u16', 'i32', 'u64', 'i8'):
            return '@%s@ as %s' % (v[0], kind), ['(v %s)' % v[0]]
        e = self.num64(cx, r.choice([3, 6, 8]))
        if evx and self.pc(self.p['p_evx']):
            e = self.evx(e)
        if kind == 'opt':
            return 'sel_opt(%s - 1)' % e.rs, ['(- %s 1)' % e.sx]
        if kind == 'enum':
            return 'sel_enum(%s)' % e.rs, [e.sx]
        if kind == 'str':
            return 'sel_str(%s)' % e.rs, [e.sx]
        if kind == 'bool':
            return '(%s) & 1 == 1' % e.rs, [e.sx]
        if kind == 'msg':
            return 'Msg((%s) as u8)' % e.rs, [e.sx]
        if kind == 'chr':
            return 'sel_chr(%s)' % e.rs, [e.sx]
        if kind == 'bytes':
            return 'sel_bytes(%s)' % e.rs, [e.sx]
        if kind == 'rec':
            f = self.num64(cx, 4)
            return 'rt::Rec { a: (%s) as u8, b: (%s) as u8 }' % (e.rs, f.rs), [e.sx, f.sx]
        if kind == 'tup':
            f = self.num64(cx, 4)
            return '((%s) as u8, (%s) as u8)' % (e.rs, f.rs), [e.sx, f.sx]
        return '(%s) as %s' % (e.rs, kind), [e.sx]

    # ------------------------------------------------ field parser: (type, chain)
    def fparser(self, d, cx, depth, named, once=True):
        """once: arguments written here are evaluated exactly once when the field is reached"""
        p = self.p
        r = self.r
        w = dict(p['kinds'])
        if depth >= 3:
            for k in ('cond', 'count', 'lcount', 'complete', 'debug', 'verify', 'map', 'into'):
                w[k] = 0
        if not named:
            w['verify'] = w['debug'] = 0
        if d.generic_errors:
            w['debug'] = w['into'] = 0
        if not p['std']:
            w['debug'] = 0
        if not p['alloc']:
            w['count'] = w['lcount'] = 0
            w['into'] = 0
        if depth > 0:
            w['ignore'] = w['ignore'] / 2
            w['tag'] = w['tag'] / 2
        k = self.pick(w)
        self.hit('kind.' + k)
        if k == 'infer':
            return self.gtype(d, 0, cx), []
        if k == 'take':
            e = self.amount(cx, 6, evx=once)
            return SLICE, [At('chain', 'Take', e.rs, '(take %s)' % e.sx, ('final',))]
        if k == 'tag':
            n = r.choice([0, 1, 2, 3, 4, 9])
            s = r.choice([None, b'NOM', b'\x00\x01', b'ab"c', b'\xff\xfe'])
            b = s if s is not None else bytes(r.randint(0, 255) for _ in range(n))
            lit = 'b"%s"' % ''.join(chr(c) if 32 < c < 127 and c not in (34, 92) else '\\x%02x' % c for c in b)
            forms = [lit]
            if b:
                forms.append('[%s]' % ', '.join(['%du8' % b[0]] + [str(c) for c in b[1:]]))
            if b == b'NOM':
                forms += ['MAGIC', '"NOM"']
            return SLICE, [At('chain', 'Tag', r.choice(forms), '(tag %s)' % ' '.join(str(c) for c in b), ('final',))]
        if k == 'value':
            t = r.choice([U8, U16, U32, I32, U64, I64])
            e = self.num64(cx, 100)
            if once and self.pc(p['p_evx'] * 2):
                e = self.evx(e)
            return t, [At('chain', 'Value', '(%s) as %s' % (e.rs, ty_rs(t)), '(value %s %s)' % (e.sx, ty_sx(t)), ('final',))]
        if k == 'parse':
            t, rs, sx = self.uparser(d, cx, evx=once)
            return t, [At('chain', 'Parse', rs, '(parse %s)' % sx, ('final',))]
        if k == 'ignore':
            t = r.choice([U8, U32, I64, ('float', 4), ('opt', U16), ('probe', 'PD'), ('probe', 'PA'), ('arr', 3, U8), ('arr', 2, ('probe', 'PD')), ('arr', 3, ('probe', 'PA')), ('arr', 1, ('probe', 'PD')), ('phantom', U8), ('arr', 2, ('opt', U8))] + ([STR, ('vec', U32), ('opt', STR), ('vec', ('probe', 'PB')), ('arr', 2, ('vec', U8)), ('arr', 1, STR)] if p['alloc'] else []))
            return t, [At('chain', ('Ignore', 'Default'), None, 'ignore', ('final',))]
        if k == 'cond':
            c = self.boolean(cx, evx=once)
            t, ch = self.fparser(d, cx, depth + 1, named, False)
            return ('opt', t), [At('chain', ('If', 'Cond'), c.rs, '(cond %s)' % c.sx)] + ch
        if k == 'count':
            t, ch = self.fparser(d, cx, depth + 1, named, False)
            fin = self.consumes(t) and not ch
            e = self.amount(cx, 6 if depth == 0 else 4, natural=fin, evx=once)
            return ('vec', t), [At('chain', 'Count', e.rs, '(count %s)' % e.sx)] + ch
        if k == 'lcount':
            lt, rs, sx = self.uparser(d, cx, length=True)
            t, ch = self.fparser(d, cx, depth + 1, named, False)
            return ('vec', t), [At('chain', 'LengthCount', rs, '(lcount %s)' % sx)] + ch
        if k == 'complete':
            t, ch = self.fparser(d, cx, depth + 1, named, once)
            return t, [At('chain', 'Complete', None, 'complete', ('complete',))] + ch
        if k == 'debug':
            t, ch = self.fparser(d, cx, depth + 1, named, once)
            return t, [At('chain', 'Debug', None, 'debug', ('debug',))] + ch
        if k == 'verify':
            for _ in range(8):
                t, ch = self.fparser(d, cx, depth + 1, named, once)
                e = self.verify(t, cx)
                if e and not any(x[0] == 'def' and False for x in subty(t)):
                    return t, [At('chain', 'Verify', e.rs, '(verify %s)' % e.sx, ('verify',))] + ch
            return U8, []
        if k == 'map':
            if r.random() < 0.65:
                t = r.choice(INTS)
                n = ty_rs(t)
                rs = r.choice(['inc_%s' % n, '|x: %s| x.wrapping_add(1)' % n, '|%s| inc_%s(%s)' % ('x', n, 'x')])
                ch = [At('chain', 'Map', rs, '(map 0)', ('map',))]
                if r.random() < 0.3:
                    c = [At('chain', 'Complete', None, 'complete', ('complete',))]
                    ch = ch + c if r.random() < 0.5 else c + ch
                elif r.random() < 0.3:
                    ch = ch + [At('chain', 'Map', 'inc_%s' % n, '(map 0)', ('map',))]
                return t, ch
            if p['alloc']:
                t = r.choice([U8, U16, U32, I16, I64])
                m = r.randint(0, 2)
                return STR, [At('chain', 'Map', '|x: %s| x.to_string()' % ty_rs(t), '(map 1)', ('map',)), At('chain', 'Parse', '%s::%s' % (ty_rs(t), ['parse', 'parse_be', 'parse_le'][m]), '(parse (ty %s %d))' % (ty_sx(t), m), ('final',))]
            return U8, []
        if k == 'into':
            c = [n for n in self.nestable(d) if not self.defs[n].generic_errors and not self.defs[n].tparams]
            if r.random() < 0.5:
                # an inferred parser below: identity conversion
                t = ('def', r.choice(c)) if c and r.random() < 0.5 else ('probe', 'PG')
                ch = [At('chain', 'Into', None, '(into 2)')]
                if r.random() < 0.3:
                    ch.insert(r.randint(0, 1), At('chain', 'Complete', None, 'complete', ('complete',)))
                if r.random() < 0.2:
                    t = ('opt', t)
                elif r.random() < 0.3 and self.consumes(t):
                    e = self.amount(cx, 4, natural=True, evx=False)
                    t = ('vec', t)
                    ch.append(At('chain', 'Count', e.rs, '(count %s)' % e.sx))
                elif r.random() < 0.3:
                    c = self.boolean(cx, evx=False)
                    t = ('opt', t)
                    ch.append(At('chain', ('If', 'Cond'), c.rs, '(cond %s)' % c.sx))
                self.hit('into.inferred')
                return t, ch
            if r.random() < 0.5:
                t = r.choice([U16, U32, U64, I32])
                return t, [At('chain', 'Into', None, '(into 0)'), At('chain', 'Parse', 'p_byte', '(parse (custom 20))', ('final',))]
            return ('vec', U8), [At('chain', 'Into', None, '(into 1)'), At('chain', 'Parse', 'p_two', '(parse (custom 21))', ('final',))]
        raise Exception(k)

    # ------------------------------------------------ directives
    def letname(self):
        self.nlet += 1
        return 'v%d' % self.nlet

    def execdir(self, cx, cls):
        """PreExec / PostExec"""
        r = self.r
        n = 'PreExec' if cls == 'pre' else 'PostExec'
        e = self.num64(cx, r.choice([3, 5, 100]))
        if self.pc(self.p['p_let'] * 3):
            old = [v for v in sorted(cx.free) if r.random() < 0.3]
            v = r.choice(sorted(old)) if old else self.letname()
            cx.free.add(v)
            mut = r.random() < 0.3
            a = At(cls, n, 'let %s%s = %s;' % ('mut ' if mut else '', v, e.rs), '(let %s %s)' % (v, e.sx), ('let',))
            cx.mut.pop(v, None)
            if mut:
                cx.mut[v] = 'i64'
            cx.vars = [x for x in cx.vars if x[0] != v] + [(v, ('i64',))]
            self.hit('dir.let')
            return [a]
        if cx.mut and r.random() < 0.35:
            # user code that changes a variable of its own, or an argument
            v = r.choice(sorted(cx.mut))
            t = cx.mut[v]
            self.hit('dir.assign')
            e = self.num64(cx, r.choice([3, 5, 100]))
            if t == 'i64' and r.random() < 0.4:
                return [At(cls, n, '%s = %s.wrapping_add(%s);' % (v, v, e.rs), '(set %s (+ (v %s) %s))' % (v, v, e.sx), ('let',))]
            return [At(cls, n, '%s = (%s) as %s;' % (v, e.rs, t), '(set %s %s)' % (v, e.sx), ('let',))]
        if self.pc(self.p['p_read']):
            # user code that parses and moves the input
            v = self.letname()
            cx.free.add(v)
            w = r.choice([1, 1, 1, 2, 4])
            le = r.randint(0, 1) if w > 1 else 0
            f = 'nom::number::streaming::%s_u%d' % (['be', 'le'][le], 8 * w)
            if w == 1 and r.random() < 0.5:
                f = 'u8::parse'
            a = At(cls, n, 'let (@i@, %s) = %s(@i@)?;' % (v, f), '(read %s (num %d 0 %d 0))' % (v, w, le), ('let', 'read'))
            cx.vars.append((v, ('int', w, False)))
            self.hit('dir.read')
            return [a]
        i = self.evid()
        self.hit('dir.exec')
        if r.random() < 0.15:
            j = self.evid()
            # two statements in one attribute
            a = At(cls, n, 'rt::ev(%d, %s); rt::ev(%d, 0);' % (i, e.rs, j), '(ev %d %s) (ev %d 0)' % (i, e.sx, j), ('exec',), strform=False)
            return [a]
        return [At(cls, n, 'rt::ev(%d, %s);' % (i, e.rs), '(ev %d %s)' % (i, e.sx), ('exec',))]

    def posdir(self, cx, cls):
        p = self.p
        r = self.r
        w = dict(align=p['p_align'], skip=p['p_skip'], move=p['p_move'] if cls == 'pre' else 0)
        if sum(w.values()) <= 0:
            return []
        k = self.pick(w)
        self.hit('dir.' + k)
        B = 'Before' if cls == 'pre' else 'After'
        if k == 'align':
            e = self.amount(cx, 8, evx=True, lo=0 if self.pc(15) else 1)
            return [At(cls, 'Align' + B, e.rs, '(align %s)' % e.sx, ('pos',))]
        if k == 'skip':
            e = self.amount(cx, 5, evx=True)
            return [At(cls, 'Skip' + B, e.rs, '(skip %s)' % e.sx, ('pos',))]
        if r.random() < 0.5:
            if self.pc(p['huge']):
                n = r.choice(['isize::MIN', 'isize::MAX', 'i64::MIN', '-1', 'isize::MIN + 1', 'isize::MAX - 1'])
                v = {'isize::MIN': -(1 << 63), 'isize::MAX': (1 << 63) - 1, 'i64::MIN': -(1 << 63), '-1': -1, 'isize::MIN + 1': -(1 << 63) + 1, 'isize::MAX - 1': (1 << 63) - 2}[n]
                return [At(cls, 'Move', n, '(move %d)' % v, ('pos', 'move'))]
            e = self.amount(cx, 7, signed=True, evx=True)
            return [At(cls, 'Move', e.rs, '(move %s)' % e.sx, ('pos', 'move'))]
        e = self.amount(cx, 9, evx=True)
        return [At(cls, 'MoveAbs', e.rs, '(moveabs %s)' % e.sx, ('pos', 'move'))]

    def setendian(self, cx, cls='pre'):
        r = self.r
        v = self.intvar(cx, maxw=4)
        if self.pc(self.p['p_evx'] * 2):
            e = self.evx(self.num64(cx, 2))
            a, b, x = r.choice([('Little', 'Big', '%s')] * 3 + [('Native', 'Big', '(and %s native)'), ('Native', 'Little', '(or (== %s 0) native)'), ('Little', 'Native', '(or %s native)'), ('Big', 'Native', '(and (== %s 0) native)')])
            e = Ex('if %s != 0 { nom::number::Endianness::%s } else { nom::number::Endianness::%s }' % (e.rs, a, b), x % e.sx)
        elif v and r.random() < 0.8:
            t = r.randint(0, 5)
            e = Ex('if @%s@ > %d { nom::number::Endianness::Little } else { nom::number::Endianness::Big }' % (v[0], t), '(> (v %s) %d)' % (v[0], t))
            if r.random() < 0.3:
                o = r.choice(['Big', 'Little'])
                e = Ex('if @%s@ > %d { nom::number::Endianness::Native } else { nom::number::Endianness::%s }' % (v[0], t, o), '(* (> (v %s) %d) native)' % (v[0], t) if o == 'Big' else '(not (and (> (v %s) %d) (not native)))' % (v[0], t))
            if r.random() < 0.3:
                e = Ex('endian_of((@%s@ as i64).rem_euclid(2))' % v[0], '(%% (v %s) 2)' % v[0])
        else:
            b = r.randint(0, 1)
            e = Ex('nom::number::Endianness::%s' % ('Little' if b else 'Big'), b)
            if r.random() < 0.25:
                e = Ex('nom::number::Endianness::Native', 'native')
        self.hit('dir.setendian')
        return At(cls, 'SetEndian', e.rs, '(setendian %s)' % e.sx, ('setendian',))

    def dirs(self, cx, cls, d):
        p = self.p
        out = []
        while self.pc(p['p_dirs']) and len(out) < 4:
            w = dict(exec=p['p_ev'] + p['p_let'], pos=p['p_align'] + p['p_skip'] + (p['p_move'] if cls == 'pre' else 0), errif=p['p_errif'] if cls == 'pre' else 0)
            if sum(w.values()) <= 0:
                break
            k = self.pick(w)
            if k == 'exec':
                out += self.execdir(cx, cls)
            elif k == 'pos':
                out += self.posdir(cx, cls)
            else:
                e = self.boolean(cx, evx=True)
                if self.r.random() < 0.7:
                    e = self.rare(cx)
                self.hit('dir.errif')
                out.append(At(cls, 'ErrorIf', e.rs, '(errif %s)' % e.sx, ('errif',)))
        return out

    def rare(self, cx):
        """mostly false"""
        r = self.r
        v = self.intvar(cx, maxw=4)
        if v:
            n = r.randint(4, 20)
            return r.choice([Ex('@%s@ == %d' % (v[0], n), '(== (v %s) %d)' % (v[0], n)), Ex('@%s@ > %d' % (v[0], n + 40), '(> (v %s) %d)' % (v[0], n + 40))])
        return r.choice([Ex('false', 0), Ex('@i@.len() > 60', '(> ilen 60)'), Ex('@orig@.len() == 3', '(== olen 3)')])

    # ------------------------------------------------ fields
    def fields(self, d, n, named, cx, hostile):
        p = self.p
        fs = []
        dyn = d.setendian_top
        used = set()
        for k in range(n):
            pre = self.dirs(cx, 'pre', d)
            en = '-'
            se = False
            if self.pc(p['p_field_set']) and not d.generic_errors:
                pre.insert(self.r.randint(0, len(pre)), self.setendian(cx))
                # an expression inserted earlier may use variables bound by later directives: append instead
                pre.sort(key=lambda a: 0)
                se = True
                s = [a for a in pre if 'setendian' in a.tags][0]
                pre.remove(s)
                pre.append(s)
            elif self.pc(p['p_field_endian']):
                en = self.r.choice(['be', 'le'])
            nm = 'f%d' % k
            rs = nm
            if hostile and self.r.random() < 0.6:
                h = self.r.choice(HOSTILE)
                if h not in used:
                    rs = h
                    used.add(h)
            t, ch = self.fparser(d, cx, 0, named)
            # the type of an ignored or converted value is only known to the compiler once the object is built
            head = [a.sx for a in ch if a.sx not in ('complete', 'debug') and not a.sx.startswith('(verify')][:1]
            if not (head and (head[0] == 'ignore' or head[0].startswith('(into')) and t[0] in ('vec', 'str', 'opt')):
                cx.vars.append((nm, t))
            if self.p.get('field_hook'):
                self.p['field_hook'](self, d, cx, nm, t, ch)
            post = self.dirs(cx, 'post', d)
            fs.append(Fd(nm, t, en, ch, pre, post, rs))
        return fs

    def fixed(self, d, fields, cx):
        """fields whose type is a type parameter that always stands for the same type"""
        r = self.r
        while self.pc(self.p['p_fixed']) and len(d.fixed) < 2 and not (d.generic_errors and d.special()):
            self.hit('gen.fixed')
            n = 'F%d' % len(d.fixed)
            while True:
                saved, d.consts = d.consts, []  # the argument is written outside the definition
                x = self.gtype(d, 1)
                d.consts = saved
                if not ty_lt(x, self.defs) and not (d.generic_errors and any(y[0] in ('str', 'def') for y in subty(x))):
                    break
            d.fixed.append((n, x))
            x = ('fixed', n, x)
            k = r.choice(['plain', 'plain', 'opt', 'vec', 'count', 'lcount', 'arr', 'cond', 'debug'])
            if k in ('vec', 'count', 'lcount') and not (self.p['alloc'] and self.consumes(x[2])) or k == 'arr' and (d.generic_errors or not self.p['alloc']):
                k = 'plain'
            t, ch = x, []
            if k == 'opt':
                t = ('opt', x)
            elif k == 'cond':
                c = self.boolean(cx)
                t, ch = ('opt', x), [At('chain', ('If', 'Cond'), c.rs, '(cond %s)' % c.sx)]
            elif k == 'vec':
                t = ('vec', x)
            elif k == 'count':
                e = self.amount(cx, 4, natural=False)
                t, ch = ('vec', x), [At('chain', 'Count', e.rs, '(count %s)' % e.sx)]
            elif k == 'lcount':
                _, rs, sx = self.uparser(d, cx, length=True)
                t, ch = ('vec', x), [At('chain', 'LengthCount', rs, '(lcount %s)' % sx)]
            elif k == 'arr':
                t = ('arr', r.randint(0, 3), x)
                c = [c for c in d.consts if c[1] == 'usize' and c[2] < 9]
                if c:
                    t = ('arr', Cn(c[0][2], c[0][0]), x)
            if r.random() < 0.15:
                ch.insert(0, At('chain', 'Complete', None, 'complete', ('complete',)))
            fields.append(Fd('f%d' % len(fields), t, r.choice(['-', '-', 'be', 'le']) if not d.setendian_top else '-', ch))

    def recursive(self, d, fields, cx):
        """a last field made of objects of the type being defined"""
        r = self.r
        if not any(not f.chain and self.consumes(f.ty) for f in fields) or any('move' in a.tags for a in d.all_attrs()) or d.generic_errors:
            return
        self.defs[d.name] = d
        d.lifetime()
        e = self.num64(cx, 3) if r.random() < 0.6 else Ex('1', 1)
        count = At('chain', 'Count', e.rs, '(count %s)' % e.sx)
        t = ('def', d.name)
        ch = []
        if self.pc(self.p['kinds']['complete'] * 3):
            ch.append(At('chain', 'Complete', None, 'complete', ('complete',)))
        cond = None
        if r.random() < 0.4:
            b = self.boolean(cx)
            cond = At('chain', ('If', 'Cond'), b.rs, '(cond %s)' % b.sx)
        if d.special():
            ct, txt, sx = self.callparser(d, d.name, cx)
            call = At('chain', 'Parse', txt, '(parse %s)' % sx, ('final',))
            ch += [count, call]
            t = ('vec', t)
        else:
            t = ('vec', t)
            if r.random() < 0.7:
                ch.append(count)
        if cond:
            ch.insert(r.randint(0, 1) if ch and ch[0].sx == 'complete' else 0, cond)
            t = ('opt', t)
        nm = 'f%d' % len(fields)
        self.hit('obj.recursive')
        fields.append(Fd(nm, t, r.choice(['-', '-', 'be', 'le']) if not d.setendian_top else '-', ch))

    # ------------------------------------------------ definitions
    def newdef(self, kind=None, level=None, root=True, **force):
        p = self.p
        self.ndef += 1
        d = Df('%sD%d' % (self.prefix, self.ndef), self.defs)
        d.level = 0
        d.root = root
        r = self.r
        kind = kind or self.pick(p['objs'])
        d.kind = kind
        if self.pc(p['generic_errors']):
            d.generic_errors = True
        if kind != 'fieldless' and self.pc(p['p_top_set']):
            d.setendian_top = True
        elif self.pc(p['p_obj_endian']):
            d.endian = r.choice(['be', 'le'])
        d.complete = self.pc(p['p_complete'])
        for k, v in force.items():
            setattr(d, k, v)
        cx = Ctx()
        hostile = self.pc(p['p_hostile'])
        if kind != 'fieldless' and self.pc(p['p_args']):
            for k in range(r.randint(1, 3)):
                d.args.append(('arg%d' % k, r.choice(['u8', 'u16', 'i32', 'i64', 'u64', 'usize'])))
                t = d.args[-1][1]
                cx.vars.append((d.args[-1][0], USIZE if t == 'usize' else ('int', int(t[1:]) // 8, t[0] == 'i')))
                if r.random() < 0.3:
                    d.mutargs.add(d.args[-1][0])
                    cx.mut[d.args[-1][0]] = t
                    self.hit('arg.mut')
        while kind != 'fieldless' and self.pc(p['p_const']) and len(d.consts) < 2:
            n, t = 'CN%d' % len(d.consts), r.choice(['usize', 'usize', 'u8', 'i32', 'u64'])
            d.consts.append((n, t, r.choice([0, 1, 2, 3, 4, 5, 8, 16])))
            cx.vars.append((n, USIZE if t == 'usize' else ('int', int(t[1:]) // 8, t[0] == 'i')))
            self.hit('gen.const')
        if kind == 'struct':
            if self.pc(p['p_generic']) and not d.args and not d.generic_errors and p['alloc']:
                d.tparams = r.randint(1, 2)
            self.topdirs(d, cx, 'pre')
            n = r.randint(*p['nfields'])
            if root and self.pc(p['p_big']):
                n = r.randint(13, 40)
                self.hit('gen.big')
            if self.pc(p['p_unit']) and not d.tparams and not d.consts:
                d.shape = 'unit'
                n = 0
            else:
                d.shape = 'tuple' if self.pc(p['p_tuple']) else 'named'
            d.fields = self.fields(d, n, d.shape == 'named', cx, hostile and d.shape == 'named')
            for k in range(d.tparams):
                t = ('param', k)
                t = r.choice([t, t, ('opt', t), ('vec', t), ('arr', 2, t)])
                nm = 'f%d' % len(d.fields)
                en = r.choice(['-', '-', 'be', 'le'])
                ch = []
                if t[0] == 'opt' and r.random() < 0.5:
                    c = self.boolean(cx)
                    ch = [At('chain', ('If', 'Cond'), c.rs, '(cond %s)' % c.sx)]
                elif t[0] == 'vec' and r.random() < 0.6:
                    e = self.amount(cx, 4, natural=False)
                    ch = [At('chain', 'Count', e.rs, '(count %s)' % e.sx)]
                d.fields.append(Fd(nm, t, en, ch))
                cx.vars.append((nm, t))
            if d.shape != 'unit':
                self.fixed(d, d.fields, cx)
            if self.pc(p['p_rec']) and p['alloc'] and not d.tparams and d.fields:
                self.recursive(d, d.fields, cx)
            self.topdirs(d, cx, 'post')
        elif kind == 'enum':
            self.enum(d, cx, hostile, root)
        else:
            self.fieldless(d, cx)
        if d.tparams or d.fixed:
            d.bounds = r.choice([None, None, 'inline', 'where', 'default', 'hrtb', 'nested'])
        if d.lifetime() and d.kind != 'fieldless':
            if sum(ty_lt(f.ty, self.defs) for f in d.all_fields()) > 1 and self.pc(p['p_lt2']):
                d.lt2 = r.randint(1, 3)
                self.hit('gen.lifetimes')
            if d.bounds is None and r.random() < 0.1:
                d.bounds = 'where'
        d.free = set(cx.free) | getattr(d, 'extra_free', set())
        if kind != 'fieldless' and not d.generic_errors and all(x.shape == 'named' or not x.fields for x in ([d] if kind == 'struct' else d.variants)) and self.pc(p['p_topdebug']):
            d.debug = True
            self.hit('obj.debug')
        self.facts(d)
        if p.get('accept') and not p['accept'](d):
            return self.newdef(kind, level, root, **force) if self.r.random() < 0.97 else self._add(d)
        return self._add(d)

    def _add(self, d):
        self.defs[d.name] = d
        self.order.append(d.name)
        self.hit('obj.' + d.kind)
        return d

    def topdirs(self, d, cx, cls):
        p = self.p
        l = d.pre if cls == 'pre' else d.post
        if cls == 'post':
            # the object has been built: only fields of Copy types can still be named
            cx.vars = [v for v in cx.vars if v[1][0] in ('int', 'i64', 'usize', 'slice')]
            while self.pc(p['p_built']) and len(l) < 4:
                l += self.built(d)
        if cls == 'pre' and d.setendian_top:
            l.append(self.setendian(cx))
        while self.pc(p['p_tl_exec']) and len(l) < 4:
            l += self.execdir(cx, cls)
        if cls == 'pre' and d.setendian_top and len(l) > 1 and self.r.random() < 0.5:
            # SetEndian may come first or last among PreExec; it only uses arguments
            l.append(l.pop(0))
        if cls == 'post' and self.pc(p['p_exact']):
            l.insert(self.r.randint(0, len(l)), At('post', 'Exact', None, 'exact', ('exact',)))
            self.hit('dir.exact')

    def built(self, d):
        """the built object is at hand in top-level PostExec"""
        r = self.r
        i = self.evid()
        if d.kind == 'struct':
            c = [(f, '%s', '(v sd_%s)') for f in d.fields if f.ty[0] in ('int', 'usize')] + [(f, '%s.len()', '(len sd_%s)') for f in d.fields if f.ty[0] in ('vec', 'str', 'slice')] + [(f, '%s.is_some()', '(v sd_%s)') for f in d.fields if f.ty[0] == 'opt']
            if not c:
                return []
            f, a, b = r.choice(c)
            self.hit('dir.struct_def')
            return [At('post', 'PostExec', 'rt::ev(%d, %s as i64);' % (i, a % ('struct_def.@sd_%s@' % f.name)), '(ev %d %s)' % (i, b % f.name), ('exec',))]
        vs = [v.name for v in d.variants] if d.kind == 'enum' else [v[0] for v in d.discs]
        self.hit('dir.enum_def')
        return [At('post', 'PostExec', 'rt::ev(%d, match &enum_def { %s });' % (i, ', '.join('Self::%s { .. } => %d' % (n, k) for k, n in enumerate(vs))), '(ev %d (v enum_def))' % i, ('exec',))]

    def fieldless(self, d, cx):
        r = self.r
        t = r.choice(INTS)
        d.repr = t
        w = t[1]
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if t[2] else (0, (1 << (8 * w)) - 1)
        n = r.choice([1, 1, 2, 3, 4, 5, 8, 12, 30])
        if self.pc(self.p['p_big']):
            n = r.choice([100, 256, 300]) if w > 1 else r.choice([100, 128, 256])
        used = set()
        cur = 0
        for k in range(n):
            ex = r.random() < 0.6
            if ex:
                v = r.choice([lo, hi, 0, 1, -1, 2, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 0x10000, 0x0100_0000, 127, 128, 255, r.randint(max(lo, -200), min(hi, 300)), r.randint(lo, hi), 0x0102030405060708, hi - 1, 1 << 63, 1 << 64, -(1 << 64), -(1 << 63) - 1])
                if v < lo or v > hi or v in used:
                    ex = False
                else:
                    cur = v
            if not ex:
                if cur in used or cur > hi:
                    continue
            used.add(cur)
            d.discs.append(('V%d' % k, cur, ex))
            cur += 1
        if not d.discs:
            d.discs.append(('V0', 0, False))
        # implicit values must follow the one before
        cur = 0
        out = []
        for nme, v, ex in d.discs:
            if not ex and v != cur:
                ex = True
            out.append((nme, v, ex))
            cur = v + 1
        d.discs = out
        if self.pc(self.p['p_tl_exec']):
            d.pre += self.execdir(cx, 'pre')
        if self.pc(self.p['p_tl_exec']):
            d.post += self.execdir(cx, 'post')
        if self.pc(self.p['p_built']):
            d.post += self.built(d)
        if self.pc(self.p['p_exact'] * 2):
            d.post.append(At('post', 'Exact', None, 'exact', ('exact',)))
        d.shape = 'unit'

    def pattern(self, kind, cx, guard_ok=True):
        """(rust, spec, bound names)"""
        r = self.r
        if kind in ('u8', 'i8', 'u16', 'i32', 'u64', 'num', 'i64', 'u128', 'usize'):
            lo = {'i8': -3, 'i32': -5, 'i64': -5}.get(kind, 0)
            top = {'u8': 255, 'i8': 127, 'u16': 65535, 'i32': 2147483647, 'u64': 18446744073709551615, 'num': 255, 'i64': (1 << 63) - 1, 'u128': (1 << 64) - 1, 'usize': (1 << 64) - 1}[kind]
            k = r.randint(0, 12)
            n = r.randint(lo, 7)
            big = r.choice([top, top - 1, 100])
            if k <= 3:
                return str(n), str(n), []
            if k == 4:
                return str(big), str(big), []
            if k == 5:
                m = n + r.randint(0, 4)
                return '%d..=%d' % (n, m), '(range %d %d)' % (n, m), []
            if k == 6:
                m = n + r.randint(1, 4)
                return '%d..%d' % (n, m), '(range %d %d)' % (n, m - 1), []
            if k == 7:
                return '%d..' % n, '(range %d %d)' % (n, 1 << 66), []
            if k == 8:
                m = n + r.randint(1, 3)
                lead = r.choice(['', '| '])
                return '%s%d | %d' % (lead, n, m), '(alt %d %d)' % (n, m), []
            if k == 9:
                m = n + 2
                return '%d | %d..=%d' % (n, m, m + 2), '(alt %d (range %d %d))' % (n, m, m + 2), []
            if k == 10 and kind in ('u8', 'num'):
                return r.choice(['K5', 'rt::K5']), '5', []
            b = self.letname()
            if k == 11:
                return '%s @ %d..=%d' % (b, n, n + 3), '(bind %s (range %d %d))' % (b, n, n + 3), [(b, kind)]
            return b, '(bind %s)' % b, [(b, kind)]
        if kind == 'bool':
            b = r.randint(0, 1)
            return ['false', 'true'][b], str(b), []
        if kind == 'enum':
            b = r.randint(0, 2)
            if r.random() < 0.2:
                return 'Sel::A | Sel::C', '(alt 0 2)', []
            return 'Sel::' + 'ABC'[b], str(b), []
        if kind == 'str':
            s = r.choice(['', 'a', 'bc', 'z', 'q'])
            return '"%s"' % s, '(str %s)' % s, []
        if kind == 'opt':
            if r.random() < 0.35:
                return 'None', 'none', []
            a, b, c = self.pattern('num', cx)
            if '|' in a and r.random() < 0.5:
                a = a.lstrip('| ')
                x = [z.strip() for z in a.split('|')]
                return ' | '.join('Some(%s)' % z for z in x), '(some %s)' % b, c
            return 'Some(%s)' % a, '(some %s)' % b, c
        if kind == 'msg':
            a, b, c = self.pattern('num', cx)
            return 'Msg(%s)' % a, '(wrap %s)' % b, c
        if kind == 'tup':
            a, b, c = self.pattern('num', cx)
            x, y, z = self.pattern('num', cx) if r.random() < 0.5 else ('_', '_', [])
            return '(%s, %s)' % (a, x), '(tup %s %s)' % (b, y), c + z
        if kind == 'rec':
            a, b, c = self.pattern('num', cx)
            if r.random() < 0.5:
                return r.choice(['Rec { a: %s, .. }', 'rt::Rec { a: %s, b: _ }']) % a, '(tup %s _)' % b, c
            x, y, z = self.pattern('num', cx)
            return 'Rec { b: %s, a: %s }' % (x, a), '(tup %s %s)' % (b, y), c + z
        if kind == 'chr':
            k = r.randint(0, 3)
            cs = {"'a'": 97, "'b'": 98, "'z'": 122, "'0'": 48, "'\\n'": 10, "'\\u{e9}'": 233, "'\u00e9'": 233, "'\\u{10ffff}'": 0x10ffff, "'\\''": 39}
            a = r.choice(list(cs))
            if k == 0:
                return "'a'..='m'", '(range 97 109)', []
            if k == 1:
                b = r.choice(list(cs))
                return '%s | %s' % (a, b), '(alt %d %d)' % (cs[a], cs[b]), []
            return a, str(cs[a]), []
        if kind == 'bytes':
            k = r.randint(0, 6)
            if k == 0:
                return '[]', '(slice)', []
            if k == 1:
                return r.choice(['b"ab"', r'b"\x61b"']), '(slice 97 98)', []
            if k == 2:
                a, b = r.choice([('0', '0'), ('1', '1'), ('1..=5', '(range 1 5)')])
                return '[%s, ..]' % a, '(slice %s ..)' % b, []
            if k == 3:
                return '[.., 9]', '(slice .. 9)', []
            if k == 4:
                a, b, c = self.pattern('num', cx)
                a = a.lstrip('| ')
                if a.endswith('..'):
                    a += '=255'
                return '&[%s, ..]' % a, '(slice %s ..)' % b, c
            if k == 5:
                return '[1, _] | [5, .., 9]', '(alt (slice 1 _) (slice 5 .. 9))', []
            b = self.letname()
            return '&[_, %s]' % b, '(slice _ (bind %s))' % b, [(b, 'num')]
        raise Exception(kind)

    def enum(self, d, cx, hostile, root=True):
        p = self.p
        r = self.r
        d.selkind = r.choice(['u8', 'u8', 'u8', 'u8', 'i8', 'u16', 'i32', 'u64', 'opt', 'enum', 'str', 'bool', 'tup', 'msg', 'chr', 'bytes', 'rec', 'u128', 'usize', 'i64'])
        self.topdirs(d, cx, 'pre')
        n = r.randint(1, 6)
        big = root and self.pc(p['p_big'])
        if big:
            n = r.randint(7, 36)
            self.hit('gen.big')
        default_at = r.randint(0, n - 1) if r.random() < 0.6 else -1
        base = list(cx.vars)
        bfree = set(cx.free)
        bmut = dict(cx.mut)
        allfree = set(cx.free)
        rec = []
        for k in range(n):
            cx.vars = list(base)
            cx.free = set(bfree)
            cx.mut = dict(bmut)
            guard = None
            if k == default_at or default_at >= 0 and r.random() < 0.04:
                # a second one is never used
                prs, psx, bound = '_', '_', []
            else:
                if big and d.selkind in ('u8', 'u16', 'i32', 'u64', 'i64', 'u128', 'usize', 'opt') and r.random() < 0.8:
                    prs, psx, bound = (str(k), str(k), []) if d.selkind != 'opt' else ('Some(%d)' % k, '(some %d)' % k, [])
                else:
                    prs, psx, bound = self.pattern(d.selkind, cx)
                for b, bk in bound:
                    cx.free.add(b)
                    cx.mut.pop(b, None)
                    cx.vars.append((b, {'u8': U8, 'i8': I8, 'u16': U16, 'i32': I32, 'u64': U64, 'i64': ('int', 8, True), 'u128': ('int', 16, False), 'usize': USIZE}.get(bk, U8)))
                if r.random() < 0.25:
                    c2 = Ctx()
                    c2.vars = [v for v in cx.vars]
                    if c2.vars:
                        guard = self.boolean(c2, looks=False)
                    elif r.random() < 0.3:
                        guard = Ex(r.choice(['true', 'false', 'K5 == 5', '1 + 1 == 3']), 0)
                        guard.sx = {'true': '1', 'false': '0', 'K5 == 5': '1', '1 + 1 == 3': '0'}[guard.rs]
                        if r.random() < 0.4:
                            prs, psx = '_', '_'
            shape = r.choice(['named', 'named', 'tuple', 'tuple', 'unit'])
            v = Va('V%d' % k, prs, psx, guard, shape, [])
            if shape == 'unit':
                if r.random() < 0.4:
                    t, rs, sx = r.choice([(UNIT, 'p_unit', '(custom 26)'), (U16, 'nom::number::streaming::be_u16', '(num 2 0 0 0)'), (U8, 'p_err', '(custom 24)'), (SLICE, 'nom::bytes::streaming::take(2usize)', '(take 2)'), (U8, 'u8::parse_be', '(ty u8 1)')])
                    v.parse = At('chain', 'Parse', rs, sx, ('final',))
                v.pre = self.dirs(cx, 'pre', d)
                v.post = self.dirs(cx, 'post', d)
            else:
                v.fields = self.fields(d, r.randint(10, 26) if not big and root and self.pc(p['p_big'] / 2) else r.randint(1, 1 if big else max(1, p['nfields'][1] - 2)), shape == 'named', cx, hostile and shape == 'named')
                self.fixed(d, v.fields, cx)
                if self.pc(p['p_rec'] * 2) and p['alloc'] and not rec:
                    rec.append((v, list(cx.vars)))
            allfree |= cx.free
            d.variants.append(v)
        for v, vs in rec:
            cx.vars = vs
            self.recursive(d, v.fields, cx)
        # an enum of only fieldless variants with Selector is still a selector enum
        cx.vars = base
        cx.free = bfree
        cx.mut = bmut
        self.topdirs(d, cx, 'post')
        d.extra_free = allfree

    # ------------------------------------------------ facts used by monitors
    def facts(self, d):
        tags = set()
        stable = True  # extension of the input never changes a success
        feed = True
        pos = False
        lvl = 0
        for a in d.all_attrs():
            t = a.sx
            if 'ilen' in t or 'olen' in t or '(custom 25)' in t or 'exact' in a.tags or 'complete' in a.tags:
                stable = feed = False
            if re.search(r'\(num \d+ \d \d 1\)', t):
                stable = feed = False
            if 'pos' in a.tags or 'read' in a.tags:
                pos = True
            for n in re.findall(r'\((?:call|def) (\S+?)[ )]', t):
                if n in self.defs:
                    dd = self.defs[n]
                    lvl = max(lvl, dd.level + 1)
                    stable &= 'stable' in dd.facts
                    feed &= 'feed' in dd.facts
                    d.deps.add(n)
        if any(v.guard and v.guard.looks() for v in d.variants):
            stable = feed = False
        if d.complete:
            stable = feed = False
        for f in d.all_fields():
            kinds = [re.match(r'\(?(\w+)', a.sx).group(1) for a in f.chain if a.sx]
            t = f.ty
            # types reached by inference
            j = 0
            for kd in kinds:
                if kd in ('cond', 'count', 'lcount'):
                    t = t[1]
                if kd in ('tag', 'take', 'value', 'parse', 'ignore'):
                    t = None
                    break
            for x in subty(t) if t else []:
                if x[0] in ('opt', 'vec'):
                    stable = feed = False
                if x[0] == 'arr':
                    feed = False
                if x[0] == 'str':
                    d.facts.add('str')
                if x[0] == 'def':
                    dd = self.defs[x[1]]
                    lvl = max(lvl, dd.level + 1)
                    stable &= 'stable' in dd.facts
                    feed &= 'feed' in dd.facts
                    d.deps.add(x[1])
                    if 'str' in dd.facts:
                        d.facts.add('str')
                if x[0] == 'param':
                    stable = feed = False
                if x[0] == 'probe' and x[1] == 'PF':
                    pass
        d.level = lvl
        if stable:
            d.facts.add('stable')
        if feed:
            d.facts.add('feed')
        if d.complete and not pos and d.kind != 'enum':
            d.facts.add('complete')
        if d.complete and d.kind == 'enum' and not pos:
            d.facts.add('complete')
        if d.kind == 'struct':
            if any(not [a for a in f.chain] and self.consumes(f.ty) for f in d.fields) and not any('move' in a.tags for a in d.all_attrs()):
                d.facts.add('consumes')
        elif d.kind == 'fieldless':
            d.facts.add('consumes')


# ---------------------------------------------------------------- programs
ARGR = {'u8': (0, 255), 'u16': (0, 65535), 'i32': (-2147483648, 2147483647), 'i64': (-9000000000000000000, 9000000000000000000), 'u64': (0, 9000000000000000000), 'usize': (0, 9000000000000000000)}
SELR = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i32': (-2147483648, 2147483647), 'u64': (0, 9000000000000000000), 'opt': (-2, 255), 'enum': (0, 2), 'str': (0, 3), 'bool': (0, 1), 'tup': (0, 255), 'msg': (0, 255), 'chr': (0, 6), 'bytes': (0, 5), 'rec': (0, 255), 'u128': (0, 9000000000000000000), 'usize': (0, 9000000000000000000), 'i64': (-9000000000000000000, 9000000000000000000)}

ERRS = ["nom::error::Error<&[u8]>", '()', '(&[u8], nom::error::ErrorKind)', 'rt::Trace', 'rt::Fat']


def sel_call(kind):
    return {'opt': 'sel_opt(a[0])', 'enum': 'sel_enum(a[0])', 'str': 'sel_str(a[0])', 'bool': 'a[0] & 1 == 1', 'tup': '(a[0] as u8, a[1] as u8)', 'msg': 'Msg(a[0] as u8)', 'chr': 'sel_chr(a[0])', 'bytes': 'sel_bytes(a[0])', 'rec': 'Rec { a: a[0] as u8, b: a[1] as u8 }'}.get(kind, 'a[0] as %s' % kind)


def prog(g, d, name=None, tyargs=None, group='', st_suffix='', errs=None):
    """(Rust function + Prog entry)"""
    name = name or d.name
    rsname = d.name + st_suffix
    args = []
    call = []
    if d.kind == 'enum':
        args.append(SELR[d.selkind])
        if d.selkind in ('tup', 'rec'):
            args.append((0, 9))
        call.append(sel_call(d.selkind))
    base = len(args)
    for k, (n, t) in enumerate(d.args):
        args.append(ARGR[t])
        call.append('a[%d] as %s' % (base + k, t))
    special = d.special()
    flags = ' '.join(x for x in ('complete',) if x in d.facts)
    if 'stable' in d.facts:
        flags += ' suffix'
    if 'feed' in d.facts:
        flags += ' feed'
    if tyargs is not None and d.tparams:
        t = ('def', d.name) + tuple(tyargs)
        rt = ty_rs(t, "'_", g.defs).replace(d.name, rsname, 1)
        if any(x[0] in ('opt', 'vec', 'def', 'arr') for y in tyargs for x in subty(y)):
            flags = ''
        root = '(ty %s)' % ty_sx(t)
    else:
        rt = ', '.join(use_args(d, "'_"))
        rt = rsname + ('<%s>' % rt if rt else '')
        root = '(call %s)' % d.name if special else '(ty (def %s))' % d.name
    nerr = 1
    errs = ERRS if errs is None else errs
    if d.generic_errors:
        nerr = len(errs)
    arms = []
    meths = ['parse', 'parse_be', 'parse_le']
    for ek in range(nerr):
        for m in range(3):
            pat = '(%d, %s)' % (m, ek)
            if special:
                tf = '::<%s>' % errs[ek] if d.generic_errors else ''
                arms.append('%s => rt::run(i, |i| <%s>::%s%s(%s)),' % (pat, rt, meths[m], tf, ', '.join(['i'] + call)))
            else:
                e = ', ' + errs[ek] if d.generic_errors else ''
                arms.append('%s => rt::run(i, |i| <%s as Parse<&[u8]%s>>::%s(i)),' % (pat, rt, e, meths[m]))
    fn = 'call_%s' % name
    src = '#[allow(unused_variables)]\nfn %s(m: u8, ek: u8, a: &[i64], i: &[u8]) -> Out {\n    match (m, ek) {\n        %s\n        _ => panic!("harness: no such instance"),\n    }\n}\n' % (fn, '\n        '.join(arms))
    entry = 'Prog { name: "%s", root: "%s", args: &[%s], call: %s, errs: %d, group: "%s", flags: "%s" },' % (
        name, root, ', '.join('(%d, %d)' % a for a in args), fn, nerr, group or name, flags.strip())
    return src, entry


HEAD = '''#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, clippy::all, non_camel_case_types, unused_comparisons, unreachable_patterns, overlapping_range_endpoints, non_snake_case)]
use nom_derive::nom;
use nom_derive::{LengthData, LengthDataU16, LengthDataU32, LengthDataU64, LengthDataU8, Nom, NomBE, NomLE, Parse};
use rt::*;
use std::marker::PhantomData;
#[global_allocator]
static ALLOC: rt::alloc::Counting = rt::alloc::Counting;
const MAGIC: &[u8] = b"NOM";
const THREE: usize = 3;
fn endian_of(v: i64) -> nom::number::Endianness { if v == 1 { nom::number::Endianness::Little } else { nom::number::Endianness::Big } }
'''

# the same program as a no_std crate: names of std do not resolve in it
HEAD_NOSTD = '#![no_std]\n#![forbid(unsafe_code)]\n' + HEAD.replace('use std::', 'use core::').replace('use nom_derive::nom;', 'extern crate nom_derive;\nextern crate rt;\nuse nom_derive::nom;', 1) + 'extern crate alloc as heap;\nuse heap::{borrow::ToOwned, string::{String, ToString}, vec, vec::Vec};\n'


class Crate:
    """one generated binary"""

    def __init__(self):
        self.defsrc = []
        self.specs = []
        self.fns = []
        self.entries = []
        self.items = []  # (name, source) for reports

    def add_def(self, d, st):
        s = render_def(d, st)
        self.defsrc.append(s)
        self.items.append((d.name + st.suffix, s, d.sx()))

    def add_spec(self, d):
        self.specs.append(d.sx())

    def add_prog(self, src, entry):
        self.fns.append(src)
        self.entries.append(entry)

    head = None

    def main(self):
        return (self.head or HEAD) + '\n'.join(self.defsrc) + '\n' + '\n'.join(self.fns) + '\nstatic PROGS: &[Prog] = &[\n    %s\n];\nconst SPEC: &str = r###"\n%s\n"###;\nfn main() { rt::main(PROGS, SPEC) }\n' % (
            '\n    '.join(self.entries), '\n'.join(self.specs))


def build_crate(seed, p, n, prefix='', style=None, directed=()):
    """a crate of n random definitions (plus what `directed` builders add)"""
    g = G(seed, p, prefix)
    c = Crate()
    for b in directed:
        b(g)
    while len(g.order) < n:
        g.newdef()
    for nme in g.order:
        d = g.defs[nme]
        st = (style or default_style)(g.r, d)
        c.add_def(d, st)
        c.add_spec(d)
        if d.tparams:
            for k in range(2):
                dummy = Df('x', g.defs)
                a = [g.gtype(dummy, 0 if g.r.random() < .5 else 1) for _ in range(d.tparams)]
                a = [x if x[0] != 'phantom' else U8 for x in a]
                c.add_prog(*prog(g, d, '%s_%d' % (d.name, k), a))
        else:
            c.add_prog(*prog(g, d))
    return g, c


def default_style(r, d):
    kw = {}
    if r.random() < 0.12:
        kw['inputname'] = r.choice(['inbuf', 'inp', 'xs', 'data_in', 'bytes', 'inBuf', '_in', 'Input', 'in_2', 'é'])
    if r.random() < 0.12:
        kw['module'] = r.choice(['pub', 'priv', 'crate'])
    return Style(r, **kw)
