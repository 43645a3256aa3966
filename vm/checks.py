"""One function per property: which definitions and inputs are generated, and which monitors watch them."""
import random
import re
from driver import Check, NoAnswer, Shard
from model import *
from progen import DEFAULT, ERRS, Crate, Df, G, build_crate, default_style, only, prof, prog

RULE = ('A case is one call of one generated parser (definition drawn from the seed, method, arguments, input). Inputs are produced by '
        'running the reference interpreter in generative mode, then truncated at every length, extended, mutated and replaced by random bytes. '
        'A case is non-trivial if its input is not empty; distinct counts different (program, method, path through the reference interpreter, outcome class) signatures.')
ASSUME = ['The reference interpreter (rt/src/interp.rs), written from the documentation, states the intended meaning.',
          'Hand-written probe types and parser functions of the harness are correct.']


def sx_has(*pats):
    rx = [re.compile(p) for p in pats]

    def f(d):
        t = d.sx()
        return any(r.search(t) for r in rx)
    return f


def seed_of(c, k):
    return (c.seed * 1000003 + int(c.pid[1:]) * 7919 + k * 104729) & 0x7fffffff


def shards(c, profiles, n, bases, mons=('watch',), extra=(), directed=(), style=None, prefix='', start=0, lib=()):
    """`profiles`: list of (weight-free) profiles; one shard each"""
    out = []
    for k, p in enumerate(profiles):
        sd = seed_of(c, start + k)
        g, cr = build_crate(sd, p, n, prefix, style=style, directed=directed)
        g.shard = k
        for b in lib:
            b(g, cr)
        for f, v in g.features.items():
            c.features[f] = c.features.get(f, 0) + v
        run = ['--bases', str(bases), '--mons', ','.join(mons)] + list(extra)
        out.append(Shard('s%02d' % (start + k), cr, run))
    return out


def pb(base, **kw):
    return prof(**dict(base, **kw))


def general(c, n=4):
    g = [prof(), prof(objs=dict(struct=45, enum=42, fieldless=13), p_args=25), prof(nfields=(1, 3), p_dirs=40, p_move=14, huge=18, p_evx=25),
         prof(types=dict(DEFAULT['types'], defn=45, opt=10, vec=9, arr=9), p_generic=25, p_obj_endian=35, p_field_endian=20, p_complete=15)]
    if c.pid == 'C15':
        g = [dict(x, generic_errors=85) for x in g]
    return g[:n]


def simple(c, profs, n=None, bases=None, mons=('watch',), extra=(), directed=(), lib=(), rule='', width=None, rounds=None, more=None, last=None):
    """the common case: 8 shards from the given profiles, one build, one run"""
    n = n or 150
    bases = bases or 5
    width = width or 8
    rounds = rounds or (1 if c.quick else 8)
    if not c.quick:
        bases *= 4
    for r in range(rounds):
        ps = [profs[k % len(profs)] for k in range(width)]
        # besides the profiles that favour the property, some that favour nothing
        ss = shards(c, ps, n, bases, mons, extra, directed, start=r * 12, lib=lib)
        ss += shards(c, general(c), 160, bases, mons, extra, start=r * 12 + width)
        ss += more(r) if more else []
        exes = c.build('w', ss)
        c.run(exes, ss)
        if c.violations:
            break
    if last and not c.violations:
        last()
    c.rule = RULE + (' ' + rule if rule else '')
    c.assumptions = ASSUME
    return c.finish()


# ---------------------------------------------------------------- C01
def C01(c):
    p1 = prof(objs=dict(struct=78, enum=15, fieldless=7), nfields=(1, 8))
    p2 = prof(objs=dict(struct=60, enum=32, fieldless=8), nfields=(2, 9), p_dirs=40)
    p3 = prof(objs=dict(struct=94, enum=4, fieldless=2), nfields=(1, 12), depth=3, kinds=dict(infer=35), p_hostile=30)
    p4 = prof(kinds=dict(infer=10), types=dict(DEFAULT['types'], defn=30), nfields=(1, 5))
    return simple(c, [p1, p2, p3, p4, p1, p3, p2, p1], n=220, rule='Focus: whole definitions with every documented attribute mixed.')


# ---------------------------------------------------------------- C02
END_TYPES = dict(int=50, float=12, str=2, opt=14, vec=8, arr=12, pair_elem=10, probe=14, phantom=0, defn=24)
END_KINDS = only(DEFAULT['kinds'], infer=50, cond=9, count=9, lcount=8, complete=8, debug=6, verify=9, map=7, into=7, parse=4, take=1)


def C02(c):
    base = dict(types=END_TYPES, kinds=END_KINDS, p_top_set=3, p_field_set=3, p_dirs=8, p_evx=3, p_exact=0, huge=1, p_ilen=0)
    p1 = pb(base, p_obj_endian=45, p_field_endian=35)
    p2 = pb(base, p_obj_endian=75, p_field_endian=20, p_generic=35)
    p3 = pb(base, p_obj_endian=15, p_field_endian=50, p_args=0)
    p4 = pb(base, p_obj_endian=60, p_field_endian=25, objs=dict(struct=30, enum=45, fieldless=25))
    p5 = prof(p_obj_endian=50, p_field_endian=20, **dict(base, types=dict(END_TYPES, defn=70), p_args=0))
    return simple(c, [p1, p2, p3, p4, p5, p1, p2, p3], n=220, lib=(endian_grid,),
                  rule='Focus: byte order attributes on fields and objects, all wrappers, nested and generic types; plus a grid of every primitive type under every wrapper, field attribute and object byte order.')


def wrappers(t):
    """(type, chain) of every construct through which the byte order must reach t"""
    A = lambda n, rs, sx, *tags: At('chain', n, rs, sx, tags)
    v = '*@self@ == *@self@' if t[0] == 'int' else 'true'
    r = [(t, []), (('opt', t), []), (('arr', 2, t), []), (('opt', ('pair', t, U16)), []), (('opt', ('pair', U16, t)), []), (('arr', 2, ('opt', t)), []),
         (('opt', t), [A(('If', 'Cond'), 'true', '(cond 1)')]), (('vec', t), [A('Count', '2', '(count 2)')]),
         (('vec', t), [A('LengthCount', 'u8::parse_be', '(lcount (ty u8 1))')]), (('vec', t), [A('LengthCount', 'u16::parse_le', '(lcount (ty u16 2))')]),
         (t, [A('Complete', None, 'complete', 'complete')]), (t, [A('Debug', None, 'debug', 'debug')]),
         (('opt', ('opt', t)), [A('Cond', '1 == 1', '(cond 1)')]), (('vec', ('arr', 1, t)), [A('Count', '1 + 1', '(count 2)')]),
         (('opt', ('vec', t)), [A('Cond', 'true', '(cond 1)'), A('Count', '2', '(count 2)')]),
         (('vec', t), [A('Complete', None, 'complete', 'complete'), A('Count', '2', '(count 2)'), A('Debug', None, 'debug', 'debug')]),
         (('vec', t), [A('Count', '1', '(count 1)'), A('Complete', None, 'complete', 'complete')])]
    if t == ('probe', 'PG'):
        i = lambda: A('Into', None, '(into 2)')
        r += [(t, [i()]), (t, [i(), A('Complete', None, 'complete', 'complete')]), (t, [A('Debug', None, 'debug', 'debug'), i()]), (('vec', t), [i(), A('Count', '2', '(count 2)')]),
              (('opt', t), [i(), A('Cond', 'true', '(cond 1)')]), (('opt', t), [i()])]
    if t[0] == 'int':
        n = ty_rs(t)
        r += [(t, [A('Verify', '*@self@ != 77', '(verify (not (== self 77)))', 'verify')]), (t, [A('Map', 'inc_%s' % n, '(map 0)', 'map')]),
              (('opt', t), [A('Cond', 'true', '(cond 1)'), A('Verify', '*@self@ != 77', '(verify (not (== self 77)))', 'verify')]),
              (('vec', t), [A('Count', '2', '(count 2)'), A('Map', 'inc_%s' % n, '(map 0)', 'map')])]
    return r


def endian_grid(g, cr):
    """every primitive under every wrapper, field attribute and object byte order (one slice of it per shard)"""
    r = g.r
    types = INTS + [('float', 4), ('float', 8), ('probe', 'PG')]
    r.shuffle(types)
    for t in types:
        ws = wrappers(t)
        r.shuffle(ws)
        for k in range(0, len(ws), 4):
            d = Df('%sE%d_%d' % (g.prefix, types.index(t), k), g.defs)
            d.level = 0
            d.endian = r.choice(['-', '-', 'be', 'le'])
            d.shape = 'named'
            for j, (ty, ch) in enumerate(ws[k:k + 4]):
                d.fields.append(Fd('f%d' % j, ty, r.choice(['-', '-', 'be', 'le']), ch))
            if r.random() < 0.15:
                # dynamic byte order of the whole object instead
                d.endian = '-'
                b = r.randint(0, 1)
                d.pre.append(At('pre', 'SetEndian', 'nom::number::Endianness::%s' % ('Little' if b else 'Big'), '(setendian %d)' % b, ('setendian',)))
            directed(g, cr, d)
    return


def directed(g, cr, d, st=None, free=(), name=None):
    d.root = True
    d.free = set(free)
    g.facts(d)
    g.defs[d.name] = d
    g.order.append(d.name)
    cr.add_def(d, st or default_style(g.r, d))
    cr.add_spec(d)
    if d.tparams == 0:
        cr.add_prog(*prog(g, d, name))


# ---------------------------------------------------------------- C03
def C03(c):
    base = dict(types=END_TYPES, kinds=dict(END_KINDS, parse=6), p_dirs=10, p_evx=40, p_exact=0, huge=1, p_ilen=2, p_let=20)
    acc = lambda d: 'setendian' in d.sx() or d.ndirs
    p1 = pb(base, p_top_set=60, p_field_set=15, p_obj_endian=30, p_field_endian=15, objs=dict(struct=70, enum=28, fieldless=2), accept=acc_or(acc))
    p2 = pb(base, p_top_set=25, p_field_set=45, p_big=8, p_obj_endian=0, p_field_endian=20, objs=dict(struct=60, enum=38, fieldless=2), accept=acc_or(acc))
    p3 = pb(base, p_top_set=50, p_field_set=25, p_args=50, objs=dict(struct=50, enum=50, fieldless=0), accept=acc_or(acc))
    p4 = prof(p_top_set=40, p_field_set=25, p_generic=40, p_complete=25, objs=dict(struct=90, enum=10, fieldless=0), accept=acc_or(acc), **dict(base, types=dict(END_TYPES, defn=60)))
    p5 = pb(base, p_top_set=60, p_field_set=35, nfields=(1, 4), p_generic=0, accept=acc_or(acc))
    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=220, rule='Focus: SetEndian on objects, variants and fields, its expression logged when evaluated. A recorded subset is executed on an emulated big-endian machine (Miri, s390x), where Endianness::Native is the other order.',
                  last=lambda: miri(c, 'big', [Shard('mset', build_crate(seed_of(c, 300), p5, 25 if c.quick else 80)[1], [])]))


def acc_or(f, keep=0.08):
    """keep a few definitions without the focus feature, as neighbours and children"""
    state = random.Random(12345)
    return lambda d: f(d) or state.random() < keep


# ---------------------------------------------------------------- C04
def C04(c):
    stream = dict(types=only(DEFAULT['types'], int=50, float=10, str=6, probe=10, defn=20), kinds=only(DEFAULT['kinds'], infer=50, take=10, tag=8, cond=6, count=8, lcount=5, verify=5, parse=5, value=2, debug=2, map=3, into=2),
                  p_complete=0, p_ilen=0, p_move=0, p_exact=0, p_skip=14, p_align=14, p_dirs=25, p_generic=0)
    com = dict(p_complete=45, kinds=dict(DEFAULT['kinds'], complete=22, take=9, tag=8), p_ilen=0, p_move=2, p_exact=2)
    full = dict(p_complete=100, p_dirs=12, p_align=0, p_skip=0, p_move=0, p_ilen=0)
    p1 = prof(**stream)
    p2 = prof(**com)
    p3 = prof(objs=dict(struct=45, enum=35, fieldless=20), **full)
    p4 = prof(**dict(stream, types=dict(stream['types'], opt=14, vec=12, arr=8)))
    p5 = prof(objs=dict(struct=30, enum=40, fieldless=30), **dict(com, p_complete=60, p_big=14))
    # long definitions, each of whose parsers can be the one which runs out of bytes
    p6 = prof(p_big=35, nfields=(1, 4), types=only(DEFAULT['types'], int=60, float=10, probe=14, arr=8, defn=10), kinds=only(DEFAULT['kinds'], infer=70, take=8, count=8, cond=6, value=2),
              objs=dict(struct=80, enum=15, fieldless=5), p_complete=85, p_dirs=3, p_exact=0, p_ilen=0, p_move=0, p_generic=0, huge=0)
    return simple(c, [p1, p2, p3, p4, p5, p1, p6, p4], n=200, mons=('watch', 'feed'), extra=('--max-inputs', '40'),
                  rule='Focus: every truncation of every generated input; the feed monitor replays a streaming caller that adds exactly the reported number of bytes and checks that one byte less is still Incomplete.')


# ---------------------------------------------------------------- C05
def C05(c):
    base = dict(p_dirs=55, p_align=20, p_skip=18, p_move=14, p_let=8, p_ev=8, p_errif=4, huge=18, p_evx=18, kinds=dict(DEFAULT['kinds'], parse=10, take=8, cond=8, count=9))
    acc = acc_or(sx_has(r'\((align|skip|move|moveabs) '))
    p1 = pb(base, nfields=(1, 5), accept=acc)
    p2 = pb(base, nfields=(1, 4), types=dict(DEFAULT['types'], defn=60, opt=8, vec=8, arr=10), accept=acc)
    p3 = pb(base, objs=dict(struct=40, enum=60, fieldless=0), p_args=30, accept=acc)
    p4 = prof(accept=acc, **dict(base, p_hostile=70, p_let=25, p_complete=25))
    p5 = prof(p_align=6, p_skip=6, p_move=40, p_tl_exec=20, p_field_set=10, accept=acc, **{k: v for k, v in base.items() if k not in ('p_align', 'p_skip', 'p_move')})
    return simple(c, [p1, p2, p3, p4, p5, p1, p2, p5], n=200, rule='Focus: alignment, skip and move directives, nested and repeated, with small, zero, huge and extreme amounts, constant and data dependent.')


# ---------------------------------------------------------------- C06
def C06(c):
    base = dict(p_args=25, nfields=(1, 4), p_dirs=15)
    p1 = pb(base, objs=dict(struct=10, enum=88, fieldless=2), p_big=7)
    p2 = pb(base, objs=dict(struct=35, enum=62, fieldless=3), kinds=dict(DEFAULT['kinds'], parse=40))
    p3 = prof(objs=dict(struct=5, enum=95, fieldless=0), p_dirs=40, p_top_set=20, p_complete=25, p_tl_exec=30, **dict({k: v for k, v in base.items() if k != 'p_dirs'}))
    return simple(c, [p1, p2, p3, p1, p1, p2, p3, p1], n=220, bases=10, rule='Focus: selector enums over all pattern forms and selector types, called directly and from fields.')


# ---------------------------------------------------------------- C07
def C07(c):
    p1 = prof(objs=dict(struct=12, enum=3, fieldless=85), p_complete=30, p_obj_endian=45, p_tl_exec=15, p_exact=4, p_big=10)
    p2 = prof(objs=dict(struct=45, enum=10, fieldless=45), p_complete=15, p_obj_endian=30, types=dict(DEFAULT['types'], defn=120), kinds=dict(DEFAULT['kinds'], infer=70))
    return simple(c, [p1, p2, p1, p1, p2, p1, p1, p2], n=220, bases=10, lib=(fieldless_grid,), mons=('watch', 'feed'),
                  rule='Focus: fieldless enums of every repr with explicit, implicit, negative and extreme discriminants, alone and as fields; a grid covers each repr with each byte order.')


def fieldless_grid(g, cr):
    r = g.r
    for k, t in enumerate(INTS):
        for en in ('-', 'be', 'le'):
            d = Df('%sF%d%s' % (g.prefix, k, en.replace('-', 'x')), g.defs)
            d.level = 0
            d.kind = 'fieldless'
            d.repr = t
            d.endian = en
            d.shape = 'unit'
            d.complete = r.random() < 0.3
            w = 8 * t[1]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[2] else (0, (1 << w) - 1)
            vals = [lo, lo + 1, 0 if lo < 0 else 2, 1, 5, hi >> 1, hi - 1, hi]
            if w == 128:
                vals[4:4] = [1 << 63, 1 << 64] + ([-(1 << 63) - 1, -(1 << 64)] if lo < 0 else [])
            seen = []
            for v in vals:
                if v not in seen:
                    seen.append(v)
            cur = 0
            for j, v in enumerate(seen):
                d.discs.append(('V%d' % j, v, not (v == cur and r.random() < 0.5)))
                cur = v + 1
            directed(g, cr, d)


# ---------------------------------------------------------------- C08
def C08(c):
    acc = acc_or(sx_has(r'\(verify ', r'\(errif ', r'\(tag ', 'exact'))
    base = dict(kinds=dict(DEFAULT['kinds'], verify=28, tag=14, cond=7, count=9, lcount=4, complete=4), p_errif=25, p_dirs=28, p_exact=18, p_evx=25, p_tuple=12, accept=acc)
    p1 = prof(**base)
    p2 = pb(base, types=dict(DEFAULT['types'], opt=14, vec=12, arr=8))
    p3 = pb(base, objs=dict(struct=50, enum=45, fieldless=5))
    p4 = pb(base, nfields=(1, 3), p_complete=20)
    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=220, bases=7, rule='Focus: Verify, ErrorIf, Tag and Exact alone, nested and under containers; their expressions are logged when evaluated.')


# ---------------------------------------------------------------- C09
def C09(c):
    acc = acc_or(sx_has(r'\(count ', r'\(lcount ', r'\(cond ', r'\(opt ', r'\(vec ', r'\(arr '))
    base = dict(kinds=dict(DEFAULT['kinds'], cond=16, count=20, lcount=12, complete=6, verify=8, map=5, debug=2), types=dict(DEFAULT['types'], opt=16, vec=14, arr=12, probe=25, defn=14), huge=10, accept=acc)
    p1 = pb(base, nfields=(1, 4))
    p2 = pb(base, nfields=(1, 6), depth=3)
    p3 = pb(base, nfields=(1, 4), p_generic=40)
    p4 = pb(base, nfields=(1, 3), objs=dict(struct=50, enum=50, fieldless=0))
    return simple(c, [p1, p2, p3, p4, p1, p2, p1, p2], n=220, bases=6, lib=(count_grid, list_grid),
                  rule='Focus: Count, LengthCount, Cond, Option, Vec and arrays over consuming, failing and non-consuming elements, nested in every order; one grid uses counts beyond 8, 16 and 32 bits, another puts every kind of element into every kind of list.')


def count_grid(g, cr):
    """counts that do not fit narrow integers, from every integer type"""
    r = g.r
    A = lambda n, rs, sx, *tags: At('chain', n, rs, sx, tags)
    cases = []
    for t, big in ((U8, [200, 255]), (U16, [256, 300, 511, 65535]), (U32, [256, 257, 65536, 70000, 1 << 31]), (U64, [256, 65536, 1 << 32, (1 << 32) + 1, 1 << 63]), (I64, [300, 65537, 1 << 33])):
        n = ty_rs(t)
        for b in big:
            cases.append((t, '%d%s' % (b, n), b))
    r.shuffle(cases)
    for k, (t, rs, b) in enumerate(cases):
        d = Df('%sN%d' % (g.prefix, k), g.defs)
        d.level = 0
        d.shape = 'named'
        el = r.choice([U8, ('probe', 'PB'), U16])
        d.fields.append(Fd('f0', U8, '-', []))
        d.fields.append(Fd('f1', ('vec', el), '-', [A('Count', rs, '(count %d)' % b)]))
        if b < 70000:
            d.fields.append(Fd('f2', SLICE, '-', [A('Take', rs, '(take %d)' % b, 'final')]))
        directed(g, cr, d)
        # from data
        d = Df('%sNd%d' % (g.prefix, k), g.defs)
        d.level = 0
        d.shape = r.choice(['named', 'tuple'])
        d.fields.append(Fd('f0', t if not t[2] else U32, r.choice(['-', 'be', 'le']), []))
        e = '@f0@' if r.random() < 0.5 else '(@f0@)'
        d.fields.append(Fd('f1', ('vec', el), '-', [A('Count', e, '(count (v f0))')]))
        directed(g, cr, d)
        d = Df('%sNl%d' % (g.prefix, k), g.defs)
        d.level = 0
        d.shape = r.choice(['named', 'tuple'])
        m = r.choice([1, 2])
        lt = t if not t[2] else U32
        d.fields.append(Fd('f0', ('vec', el), '-', [A('LengthCount', '%s::%s' % (ty_rs(lt), ['', 'parse_be', 'parse_le'][m]), '(lcount (ty %s %d))' % (ty_sx(lt), m))]))
        directed(g, cr, d)


def list_grid(g, cr):
    """every kind of element, zero-sized ones included, in every kind of list (one slice of it per shard)"""
    r = g.r
    A = lambda n, rs, sx, *tags: At('chain', n, rs, sx, tags)

    def new(name, shape=None):
        d = Df('%sK%s' % (g.prefix, name), g.defs)
        d.level = 0
        d.shape = shape or r.choice(['named', 'tuple'])
        d.endian = r.choice(['-', '-', 'be', 'le'])
        return d
    # a derived type without any content which consumes input
    z = new('z', 'tuple')
    z.fields.append(Fd('f0', ('probe', 'PT')))
    directed(g, cr, z)
    els = [U8, U16, I64, ('float', 4), STR] + [('probe', x) for x in ('PA', 'PB', 'PC', 'PF', 'PZ', 'PD', 'PT')] + \
        [('def', z.name), ('opt', U8), ('opt', ('pair', U8, U16)), ('opt', ('pair', ('probe', 'PT'), ('probe', 'PT'))), ('arr', 2, U8), ('arr', 0, U8), ('arr', 2, ('probe', 'PT')), ('vec', U8), ('opt', ('probe', 'PT'))]
    for j in range(g.shard % 8, len(els), 8):
        t = els[j]
        cnt = lambda n: A('Count', str(n), '(count %d)' % n)
        lc = lambda u, m: A('LengthCount', '%s::%s' % (ty_rs(u), ['', 'parse_be', 'parse_le'][m]), '(lcount (ty %s %d))' % (ty_sx(u), m))
        en = lambda: r.choice(['-', '-', 'be', 'le'])
        lists = [(('vec', t), []), (('opt', ('vec', t)), []), (('opt', ('vec', t)), [A(('If', 'Cond'), 'true', '(cond 1)')]), (('vec', ('vec', t)), []), (('vec', ('opt', t)), []),
                 (('vec', ('arr', 2, t)), []), (('vec', t), [A('Complete', None, 'complete', 'complete')])]
        for k, (ty, ch) in enumerate(lists):
            d = new('%d_%d' % (j, k))
            if k % 2:
                d.fields.append(Fd('f0', U8))
            d.fields.append(Fd('f1', ty, en(), ch))
            directed(g, cr, d)
        d = new('%d_c' % j)
        for k, n in enumerate([0, 1, 2, 5]):
            d.fields.append(Fd('f%d' % k, ('vec', t), en(), [cnt(n)]))
        directed(g, cr, d)
        d = new('%d_a' % j)
        for k, n in enumerate([0, 1, 2, 5]):
            d.fields.append(Fd('f%d' % k, ('arr', n, t), en(), []))
        directed(g, cr, d)
        d = new('%d_l' % j)
        for k, u in enumerate([U8, U16]):
            d.fields.append(Fd('f%d' % k, ('vec', t), en(), [lc(u, r.choice([1, 2]))]))
        d.fields.append(Fd('f2', ('opt', ('vec', t)), en(), [A(('If', 'Cond'), 'true', '(cond 1)'), cnt(1)]))
        directed(g, cr, d)


# ---------------------------------------------------------------- C10
def C10(c):
    acc = acc_or(sx_has(r'\(ev ', r'\(evx ', r'\(let ', r'\(value ', 'ignore', r'arg\d'))
    base = dict(p_ev=30, p_let=22, p_dirs=42, p_evx=55, p_tl_exec=35, p_args=40, p_hostile=35, p_errif=9, kinds=dict(DEFAULT['kinds'], value=12, ignore=10, parse=14, cond=8, count=8, lcount=5), types=dict(DEFAULT['types'], phantom=8), p_ilen=25, accept=acc)
    p1 = prof(**base)
    p2 = pb(base, objs=dict(struct=45, enum=50, fieldless=5))
    p3 = pb(base, p_tuple=80)
    p4 = pb(base, nfields=(2, 9), p_field_set=15, p_top_set=15)
    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=200, rule='Focus: the order and number of evaluations of user code, recorded as an event log and compared with the reference log.')


# ---------------------------------------------------------------- C11
def lib_types(r, alloc=True):
    el = INTS + [('float', 4), ('float', 8)]
    out = list(el)
    if alloc:
        out.append(STR)
    for t in INTS:
        if not t[2] and t != U128:
            out.append(('ld', t))
    out.append(('ld', ('probe', 'PL')))
    out += [('opt', t) for t in el] + [('pair', a, b) for a, b in zip(el, el[3:] + el[:3])]
    out += [('arr', n, t) for n, t in zip([0, 1, 2, 3, 4, 5, 7, 8, 16, 32, 33, 64], el)]
    out += [('arr', n, t) for n, t in [(255, U8), (256, U16), (257, U8), (300, U8), (1000, ('probe', 'PT')), (4097, U8)]]
    if alloc:
        out += [('vec', t) for t in el]
        out += [('vec', STR), ('opt', STR), ('pair', STR, U16), ('arr', 2, STR), ('vec', ('ld', U8)), ('opt', ('ld', U16)), ('vec', ('vec', U8)), ('arr', 3, ('vec', U16))]
    probes = [('probe', x) for x in ('PA', 'PB', 'PC', 'PF', 'PZ', 'PD', 'PL', 'PT')]
    for p in probes:
        out += [('opt', p), ('pair', p, U8), ('pair', U8, p), ('arr', 3, p), ('arr', 0, p)]
        if alloc:
            out += [('vec', p), ('vec', ('pair', U8, p)), ('opt', ('vec', p))]
    out = [t for t in out if alloc or t[0] != 'arr' or (t[2][0] != 'opt' and t[2] != ('probe', 'PD'))]

    def rnd(depth=0):
        k = r.randint(0, 7) if depth < 3 else 0
        if k <= 2:
            return r.choice(el + probes + ([STR, ('ld', U8), ('ld', U32), ('ld', ('probe', 'PL'))] if alloc else [('ld', U16)]))
        if k == 3:
            return ('opt', rnd(depth + 1))
        if k == 4 and alloc:
            return ('vec', rnd(depth + 1))
        if k == 5:
            if not alloc:
                return ('arr', r.choice([0, 1, 2, 3, 9]), r.choice(INTS + [('probe', 'PA'), ('probe', 'PB'), ('probe', 'PF')]))
            return ('arr', r.choice([0, 1, 2, 3, 9]), rnd(depth + 1))
        return ('pair', rnd(depth + 1), rnd(depth + 1))
    for _ in range(150):
        out.append(rnd())
    seen, res = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


def lib_prog(name, t, defs, errs=()):
    rt = ty_rs(t, "'_", defs)
    if not name[-1].isdigit() or int(name[1:]) % 2:
        # the alias names the same type
        for n in (8, 16, 32, 64):
            rt = rt.replace("LengthData<u%d, &'_ [u8]>" % n, "LengthDataU%d<'_>" % n)
    arms = []
    for ek, e in enumerate([None] + list(errs)):
        for m, me in enumerate(['parse', 'parse_be', 'parse_le']):
            # LengthData and borrowed probes carry the lifetime of the input
            arms.append("(%d, %d) => rt::run(i, |i| <%s as Parse<&[u8]%s>>::%s(i))," % (m, ek, rt, ', ' + e if e else '', me))
    src = "fn call_%s(m: u8, ek: u8, a: &[i64], i: &[u8]) -> Out {\n    match (m, ek) {\n        %s\n        _ => panic!(\"harness: no such instance\"),\n    }\n}\n" % (name, '\n        '.join(arms))
    flags = []
    if all(x[0] not in ('opt', 'vec', 'arr') for x in subty(t)):
        flags += ['feed', 'suffix']
    entry = 'Prog { name: "%s", root: "(ty %s)", args: &[], call: call_%s, errs: %d, group: "%s", flags: "%s" },' % (name, ty_sx(t), name, 1 + len(errs), name, ' '.join(flags))
    return src, entry


def strided_prog(name, t):
    """the same implementation on an input type that is not a slice"""
    rt = ty_rs(t, "'_", {}).replace("&'_ [u8]", "rt::Strided<'_>")
    arms = []
    for ek, e in enumerate(['nom::error::Error<rt::Strided>', '()', "(rt::Strided, nom::error::ErrorKind)"]):
        for m, me in enumerate(['parse', 'parse_be', 'parse_le']):
            arms.append("(%d, %d) => rt::run_strided(i, |i| <%s as Parse<rt::Strided, %s>>::%s(i))," % (m, ek, rt, e, me))
    src = "fn call_%s(m: u8, ek: u8, a: &[i64], i: &[u8]) -> Out {\n    match (m, ek) {\n        %s\n        _ => panic!(\"harness: no such instance\"),\n    }\n}\n" % (name, '\n        '.join(arms))
    return src, 'Prog { name: "%s", root: "(ty %s)", args: &[], call: call_%s, errs: 3, group: "%s", flags: "" },' % (name, ty_sx(t), name, name)


def lib_crate(sd, alloc=True, strided=False):
    r = random.Random(sd)
    cr = Crate()
    for k, t in enumerate(lib_types(r, alloc)):
        # error types other than the default, where the implementation allows them
        errs = []
        if not any(x[0] in ('str', 'arr') for x in subty(t)) or not alloc and 'str' not in str(t):
            errs = ['()', "(&[u8], nom::error::ErrorKind)", 'rt::Trace']
        cr.add_prog(*lib_prog('L%d' % k, t, {}, errs))
        if t[0] == 'ld' and t[1][0] == 'int':
            cr.add_prog(*lib_prog('L%da' % k, t, {}, errs))
        cr.items.append(('L%d' % k, 'type L%d = %s;' % (k, ty_rs(t, "'static", {})), ''))
        if strided and not any(x[0] in ('str', 'probe') for x in subty(t)):
            cr.add_prog(*strided_prog('S%d' % k, t))
            cr.items.append(('S%d' % k, 'type S%d = %s; // with an input type of its own' % (k, ty_rs(t, "'static", {})), ''))
    return cr


def C11(c):
    for rnd in range(1 if c.quick else 6):
        ss = []
        for k in range(8):
            cr = lib_crate(seed_of(c, rnd * 8 + k), strided=True)
            ss.append(Shard('s%02d' % k, cr, ['--bases', str(40 if c.quick else 150), '--mons', 'watch,feed', '--max-inputs', '40']))
        exes = c.build('w', ss)
        c.run(exes, ss, ('--seed', str(seed_of(c, rnd))))
        if c.violations:
            break
    if not c.violations:
        miri(c, 'big')
    c.rule = RULE + ' A recorded subset is executed on an emulated big-endian machine (Miri, s390x). Here a program is one library implementation of Parse (all primitives, LengthData over all integer types, String, Option, Vec, arrays, pairs, and random nestings of them).'
    c.assumptions = ASSUME
    return c.finish()


# ---------------------------------------------------------------- C12
def C12(c):
    base = dict(huge=25, p_dirs=40, p_move=24, p_args=25, kinds=dict(DEFAULT['kinds'], count=10, take=9, lcount=6), p_ilen=5)
    p1 = prof(**base)
    p2 = pb(base, objs=dict(struct=40, enum=45, fieldless=15))
    p3 = pb(base, types=dict(DEFAULT['types'], arr=12, vec=8, opt=8, defn=25))
    ps = [p1, p2, p3, p1]
    n = 120 if c.quick else 250
    bases = 5 if c.quick else 40
    ss = shards(c, ps, n, bases, ('watch', 'mem'), lib=())
    L = lib_crate(seed_of(c, 77))
    ss.append(Shard('lib', L, ['--bases', str(10 if c.quick else 100), '--mons', 'watch,mem']))
    more = shards(c, general(c, 3) + [p2], 150, bases, ('watch', 'mem'), start=20)
    kinds = []
    exes = c.build('w', ss + more)
    c.run(exes, ss + more, label=' debug')
    kinds.append('debug with overflow checks')
    if not c.violations:
        exes = c.build('w', ss + more, release=True)
        c.run(exes, ss + more, label=' release')
        kinds.append('release')
    if not c.violations:
        # inputs are exact-size heap blocks: any read past them is reported
        tgt = 'x86_64-unknown-linux-gnu'
        ex2 = c.build('asan', ss, toolchain='nightly', rustflags='-Zsanitizer=address', target=tgt)
        c.run(ex2, ss, label=' asan', limit_as=None, env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000'})
        kinds.append('address sanitizer')
    if not c.violations:
        miri(c)
        kinds.append('Miri')
    c.cov['executed_under'] = kinds
    c.rule = RULE + ' Every program runs in debug (overflow checks), release and address-sanitizer builds against one reference; a recorded subset runs under Miri.'
    c.assumptions = ASSUME + ['The user expressions of generated definitions do not panic (they are total by construction).']
    return c.finish()


def miri(c, mode='ub', shards=None):
    """a recorded subset of the cases, small programs, under the undefined-behaviour interpreter;
    threads: concurrent calls, switched at random points, data races reported;
    big: on a big-endian machine (s390x), which differs in nothing but Endianness::Native"""
    import json
    import os
    import subprocess
    import time
    from concurrent.futures import ThreadPoolExecutor
    from driver import CORES, sh
    t = time.time()
    q = c.quick
    small = shards or []
    if not small:
        for k in range({'ub': 4, 'threads': 2, 'big': 2}[mode]):
            p = prof(nfields=(1, 4), huge=12, p_dirs=35, p_move=10, kinds=dict(DEFAULT['kinds'], count=10, take=9, debug=0), objs=dict(struct=60, enum=28, fieldless=12), p_big=0)
            g, cr = build_crate(seed_of(c, 500 + k), p, {'ub': 18, 'threads': 5, 'big': 10}[mode] * (1 if q else 3))
            small.append(Shard('m%d' % k, cr, []))
    L = lib_crate(seed_of(c, 501))
    small.append(Shard('mlib', L, []))
    # predictions come from a native build
    ws = 'miri' + mode
    ex = c.build(ws, small)
    d = os.path.join(c.dir, ws)
    for s in small:
        if s.name not in ex:
            return
        lib = s.name == 'mlib'
        nb, mi, cap = (1, 3, 40) if lib else (2, 6, 40)
        if mode == 'threads':
            nb, mi, cap = (1, 1, 4)
        elif mode == 'big':
            nb, mi, cap = (1, 1, 8) if lib else (2, 3, 30)
        if not q:
            nb *= 4
        rc, _, err = sh([ex[s.name], '--seed', str(c.seed), '--dump', os.path.join(c.dir, ws + s.name + '.cases'), '--bases', str(nb), '--max-inputs', str(mi), '--cap', str(cap), '--big-host', '1' if mode == 'big' else '0'])
        if rc != 0:
            raise NoAnswer('could not record cases: ' + err.decode()[-500:])
    flags = {'ub': '-Zmiri-symbolic-alignment-check', 'threads': '-Zmiri-preemption-rate=0.2 -Zmiri-seed=%d' % (c.seed % 1000), 'big': ''}[mode]
    env = {'CARGO_TARGET_DIR': os.path.join(d, 'target-miri'), 'MIRIFLAGS': '-Zmiri-disable-isolation ' + flags, 'CARGO_TERM_COLOR': 'never', 'CARGO_NET_OFFLINE': 'true'}
    more = ['--threads', '3', '--bases', '4' if q else '20', '--seed', str(c.seed)] if mode == 'threads' else []
    target = ['--target', 's390x-unknown-linux-gnu'] if mode == 'big' else []
    label = {'ub': ' (Miri)', 'threads': ' (Miri)', 'big': ' (Miri, big-endian machine)'}[mode]

    def one(s):
        out = os.path.join(c.dir, ws + s.name + '.miri.json')
        if os.path.exists(out):
            os.remove(out)
        return s, out, sh(['cargo', '+nightly', 'miri', 'run', '--offline', '-q'] + target + ['--bin', s.name, '--', '--cases', os.path.join(c.dir, ws + s.name + '.cases'), '--out', out] + more, cwd=d, env=env, timeout=700)
    # build once (dependencies), then the rest in parallel
    with ThreadPoolExecutor(CORES) as ex:
        first = one(small[0])
        res = [first] + list(ex.map(one, small[1:]))
    for s, out, (rc, o, err) in res:
        err = err.decode('utf8', 'replace')
        if rc == 0 and os.path.exists(out) and 'CASES DONE' in err:
            r = json.load(open(out))
            n = 'miri_big_endian_evaluations' if mode == 'big' else 'miri_evaluations'
            c.cov[n] = c.cov.get(n, 0) + r['evaluations']
            c.take(s, dict(r, samples=[], monitors={k + label: v for k, v in r.get('monitors', {}).items()}))
        elif 'Undefined Behavior' in err or 'error: abnormal termination' in err or 'memory leaked' in err:
            case = [l for l in err.split('\n') if l.startswith('CASE ')][-1:]
            c.violation('miri', {'what': 'the undefined-behaviour interpreter stopped', 'case': case[0] if case else '', 'detail': '\n'.join(l for l in err.split('\n') if not l.startswith('CASE '))[-3000:], 'shard': s.name})
        else:
            c.notes.append('miri %s: ended with %s: %s' % (s.name, rc, '\n'.join(l for l in err.split('\n') if not l.startswith('CASE '))[-1500:]))
    c.phases['miri ' + mode] = round(time.time() - t, 1)


# ---------------------------------------------------------------- C13
def C13(c):
    kinds = only(DEFAULT['kinds'], infer=30, take=16, count=25, lcount=22, cond=5, parse=4, verify=4, complete=4)
    types = dict(DEFAULT['types'], str=14, vec=16, opt=10, arr=8, probe=35, int=30)
    p1 = prof(kinds=kinds, types=types, nfields=(1, 4), huge=45, p_dirs=8)
    p2 = prof(kinds=kinds, types=dict(types, defn=40), nfields=(1, 4), huge=20, p_generic=25)
    p3 = prof(kinds=kinds, types=types, nfields=(1, 3), huge=30, objs=dict(struct=60, enum=40, fieldless=0), p_args=40)
    L = lib_crate(seed_of(c, 77))
    for rnd in range(1 if c.quick else 6):
        ss = shards(c, [p1, p2, p3, p1, p2, p1, p3], 150, 8 if c.quick else 40, ('watch', 'mem'), lib=(count_grid,), start=16 * rnd)
        ss += shards(c, general(c), 150, 5 if c.quick else 20, ('watch', 'mem'), start=16 * rnd + 8)
        ss.append(Shard('lib%d' % rnd, lib_crate(seed_of(c, 77 + rnd)), ['--bases', '20', '--mons', 'watch,mem']))
        exes = c.build('w', ss)
        c.run(exes, ss)
        if c.violations:
            break
    c.rule = RULE + ' Each call runs with an allocation counter (peak live bytes <= 6 MiB + 65536 elements per LengthCount attribute reached + c n, c from the element sizes) and a counter of element-parser calls; inputs carry huge declared lengths, and what nom reserves ahead (64 KiB per Count or array, 65536 elements per LengthCount) is the constant.'
    c.assumptions = ASSUME
    return c.finish()


# ---------------------------------------------------------------- C14
def C14(c):
    kinds = dict(DEFAULT['kinds'], take=22, tag=14, parse=14, cond=8, count=8)
    types = dict(DEFAULT['types'], probe=30, defn=22)
    hook = lambda d: d.lifetime()
    acc = acc_or(hook, 0.15)
    p1 = prof(kinds=kinds, types=types, accept=acc, p_dirs=30, p_move=10, p_skip=10, p_align=10)
    p2 = prof(kinds=kinds, types=types, accept=acc, objs=dict(struct=50, enum=50, fieldless=0))
    p3 = prof(kinds=kinds, types=dict(types, opt=10, vec=10, arr=10, defn=50), accept=acc, p_generic=20)
    L = lambda g, cr: None
    rounds = 1 if c.quick else 6
    for rnd in range(rounds):
        ss = shards(c, [p1, p2, p3, p1, p2, p3, p1], 180, 4 if c.quick else 16, ('watch', 'place'), start=16 * rnd)
        ss += shards(c, general(c), 150, 4 if c.quick else 16, ('watch', 'place'), start=16 * rnd + 8)
        ss.append(Shard('lib%d' % rnd, lib_crate(seed_of(c, 77 + rnd)), ['--bases', '10', '--mons', 'watch,place']))
        exes = c.build('w', ss)
        c.run(exes, ss)
        if c.violations:
            break
    c.rule = RULE + ' Every returned slice and remainder is recorded by address and length; every input is also placed inside larger buffers between random bytes, and the buffer is compared afterwards.'
    c.assumptions = ASSUME
    return c.finish()


# ---------------------------------------------------------------- C15
def C15(c):
    kinds = only(DEFAULT['kinds'], infer=45, take=6, tag=6, parse=9, ignore=3, cond=8, count=9, lcount=6, complete=7, verify=8, map=4, value=4)
    base = dict(kinds=kinds, generic_errors=92, p_args=20, p_dirs=28)
    p1 = prof(**base)
    p2 = pb(base, objs=dict(struct=40, enum=50, fieldless=10))
    p3 = pb(base, types=dict(DEFAULT['types'], defn=60))
    p4 = pb(base, objs=dict(struct=60, enum=30, fieldless=10), p_top_set=0, p_complete=25, p_errif=15)
    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=130, bases=4, mons=('watch', 'errs'),
                  rule='Each program is instantiated with five error types (nom Error, (), (input, kind), one that records the chain, one with a large payload); all must agree with the reference.')


# ---------------------------------------------------------------- C16
def C16(c):
    base = dict(p_hostile=0, kinds=dict(DEFAULT['kinds'], cond=9, ignore=7), p_obj_endian=35, p_field_endian=15)
    p1 = prof(**base)
    p2 = pb(base, objs=dict(struct=45, enum=45, fieldless=10))
    p3 = pb(base, p_dirs=40, p_args=30, p_tl_exec=30)
    p4 = pb(base, p_tuple=70)
    rounds = 1 if c.quick else 8
    n = 45
    for rnd in range(rounds):
        ss = []
        for k, p in enumerate([p1, p2, p3, p4, p1, p2, p3, p4]):
            cr = equiv_crate(c, seed_of(c, rnd * 8 + k), p, n)
            ss.append(Shard('s%02d' % k, cr, ['--bases', str(5 if c.quick else 20), '--mons', 'watch,equiv']))
        exes = c.build('w', ss)
        c.run(exes, ss)
        if c.violations:
            break
    c.rule = RULE + ' Programs come in groups: one definition spelled in ten ways (attribute form, splitting, aliases, derive macro, field shape, raw identifiers, input name, Debug, DebugDerive); all members run on the same inputs and must agree with each other and with the reference, events included.'
    c.assumptions = ASSUME
    return c.finish()


VARIANTS = [
    ('', dict()),
    ('Str', dict(form='str', split='one', alias='first', derive='attr', shuffle=False)),
    ('Par', dict(form='paren', split='many', alias='second', derive='macro', shuffle=True)),
    ('Tup', dict(shape='tuple', derive='mixed')),
    ('Nam', dict(shape='named', form='paren')),
    ('Raw', dict(raw=True, form='paren', split='one')),
    ('Rws', dict(raw=True, form='str', shape='named')),
    ('Inp', dict(inputname='input_data', alias='second')),
    ('Inq', dict(inputname='bs', form='str')),
    ('Dbg', dict(debug='field', shape='named')),
    ('Dbt', dict(debug='top', shape='named')),
    ('Ddr', dict(debugderive=True)),
    ('Mac', dict(macro='frag', form='paren', debug=None)),
    ('Mad', dict(macro='frag')),
    ('Pas', dict(macro='pass', shape='named')),
    ('Cfg', dict(form='mixed')),
]


def passable(d):
    """can the text of the definition go through another macro? Names that the derive macro makes up are then out of reach of its expressions"""
    rs = [a.rs for a in d.all_attrs() if a.rs] + [v.guard.rs for v in d.variants if v.guard]
    return not any('@i@' in x or '@orig@' in x or 'struct_def' in x or 'enum_def' in x for x in rs)


def equiv_crate(c, sd, p, n):
    g = G(sd, p)
    cr = Crate()
    while len(g.order) < n:
        g.newdef()
    for f, v in g.features.items():
        c.features[f] = c.features.get(f, 0) + v
    r = g.r
    for nme in g.order:
        d = g.defs[nme]
        cr.add_spec(d)
        if d.tparams:
            dummy = Df('x', g.defs)
            ta = [g.gtype(dummy, 1) for _ in range(d.tparams)]
        vs = VARIANTS[:1] + r.sample(VARIANTS[1:], 9)
        if not passable(d):
            vs = [v for v in vs if v[0] != 'Pas']
        for suf, kw in vs:
            if kw.get('debugderive') and r.random() < 0.7:
                continue  # prints the generated code at compile time: a few are enough
            st = Style(r, suffix=suf, **kw)
            cr.add_def(d, st)
            cr.items[-1] = (d.name + suf, cr.items[-1][1], cr.items[-1][2])
            c.features['style.' + (suf or 'base')] = c.features.get('style.' + (suf or 'base'), 0) + 1
            if d.tparams:
                cr.add_prog(*prog(g, d, d.name + suf, ta, group=d.name, st_suffix=suf))
            else:
                cr.add_prog(*prog(g, d, d.name + suf, None, group=d.name, st_suffix=suf))
    return cr


# ---------------------------------------------------------------- C19
def C19(c):
    types = dict(DEFAULT['types'], int=25, probe=45, defn=45, opt=12, vec=10, arr=12, pair_elem=12)
    kinds = dict(DEFAULT['kinds'], infer=60, count=8, lcount=6, cond=7, complete=4)
    base = dict(types=types, kinds=kinds, p_obj_endian=35, p_field_endian=20)
    p1 = pb(base, p_generic=45)
    p2 = pb(base, p_generic=15, p_complete=25, p_align=14, p_dirs=25)
    p3 = pb(base, p_generic=30, p_top_set=15, p_field_set=12, objs=dict(struct=60, enum=30, fieldless=10))
    p4 = prof(generic_errors=60, **dict(base, types=dict(types, defn=60)))
    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=200, mons=('watch',), more=lambda rnd: [Shard('lib%d' % rnd, lib_crate(seed_of(c, 900 + rnd)), ['--bases', '12' if c.quick else '60', '--mons', 'watch'])],
                  rule='Focus: hand-written Parse types (which log the method called on them and the position), nested derived types, generic types instantiated at hand-written, derived and container types.')


# ---------------------------------------------------------------- C20
def C20(c):
    p1 = prof()
    p2 = prof(types=only(DEFAULT['types'], int=55, float=8, str=6, probe=14, defn=20), kinds=dict(DEFAULT['kinds'], complete=0, take=10), p_complete=0, p_exact=0, p_ilen=0)
    p3 = prof(objs=dict(struct=45, enum=40, fieldless=15), p_args=30)
    rounds = 1 if c.quick else 6
    for rnd in range(rounds):
        ss = shards(c, [p1, p2, p3, p1, p2, p3], 170, 4 if c.quick else 16, ('watch', 'place', 'history'), start=16 * rnd)
        ss += shards(c, general(c), 150, 4 if c.quick else 16, ('watch', 'place', 'history'), start=16 * rnd + 8)
        ss.append(Shard('lib%d' % rnd, lib_crate(seed_of(c, 77 + rnd)), ['--bases', '12', '--mons', 'watch,place,history']))
        exes = c.build('w', ss)
        c.run(exes, ss)
        if c.violations:
            break
        # the same programs from several threads at once, two shards at a time so that threads really overlap
        for k in (0, 2):
            c.run(exes, ss[k:k + 1] + ss[6:7] if k == 0 else ss[k:k + 2], ('--threads', '4', '--bases', '1' if c.quick else '6', '--mons', ''), label=' threads%d' % k)
        if c.violations:
            break
    if not c.violations:
        miri(c, 'threads')
    c.rule = RULE + ' Each case is repeated at other addresses and alignments between other bytes, extended after success, repeated 150 times in a row for each outcome class of each program, repeated in another order after all others, run in sequences of inputs that differ by one in a single byte, and called from 4 threads sharing the buffers, both in a random mix and all threads hammering one program with different inputs; thread switches and overlapping calls are counted. A recorded subset is hammered from 3 threads under Miri with preemption at random points and data race detection.'
    c.assumptions = ASSUME
    return c.finish()


# ---------------------------------------------------------------- C21
def C21(c):
    kinds = dict(DEFAULT['kinds'], debug=30, complete=8, cond=8, count=9, lcount=6, verify=8, tag=6, map=4)
    base = dict(kinds=kinds, p_topdebug=45, p_tuple=8, objs=dict(struct=62, enum=32, fieldless=6))
    p1 = pb(base)
    p2 = pb(base, types=dict(DEFAULT['types'], defn=40, opt=12, vec=10, arr=10, probe=14))
    p3 = pb(base, p_complete=30, p_dirs=25, p_move=8)
    p4 = pb(base, objs=dict(struct=40, enum=60, fieldless=0), p_args=25, p_obj_endian=35)

    def derived():
        # the code that DebugDerive prints: exactly that of the objects which ask for it, and it is the implementation
        sd = seed_of(c, 500)
        g, cr = build_crate(sd, pb(base, p_topdebug=20, p_const=15, p_generic=15), 80 if c.quick else 300, style=lambda r, d: plain_style(r, d, False))
        for f, v in g.features.items():
            c.features[f] = c.features.get(f, 0) + v
        cr.defsrc, cr.items = [], []
        want, r, sts = set(), random.Random(sd), {}
        for nme in g.order:
            d = g.defs[nme]
            if r.random() < 0.7:
                want.add(nme)
            sts[nme] = plain_style(random.Random(r.random()), d, nme in want)
            cr.add_def(d, sts[nme])
        sh1 = Shard('s90', cr, ['--bases', '2', '--mons', 'watch,reports'])
        exes = c.build('dd', [sh1])
        if c.violations:
            return
        c.run(exes, [sh1], label=' printing')
        text, got = c.build_stderr, {}
        at = 0
        while m := re.compile(r'^[^|=\n]*?(?<![\w/-])impl(?=\s*<|\s+[A-Za-z])', re.M).search(text, at):
            code = item(text[m.end() - 4:])
            at = m.end() + max(0, len(code) - 4)
            names = [n for n in g.order if re.search(r'\b%s\b' % n, code.split('{', 1)[0])]
            got.setdefault(names[0] if len(names) == 1 else None, []).append(code)
        c.cov.setdefault('monitors', {})['DebugDerive texts read'] = sum(len(v) for v in got.values())
        for n in g.order:
            k = len(got.get(n, []))
            if bool(k) != (n in want):
                src = [x[1] for x in cr.items if x[0] == n]
                c.violation('printed', {'what': 'DebugDerive: the implementation for %s printed %d times' % (n, k), 'definitions': src, 'note': 'expected %d' % (n in want)})
        if c.violations:
            return
        # the printed implementations in the place of the derived ones
        cr2 = Crate()
        cr2.specs, cr2.fns, cr2.entries = cr.specs, cr.fns, cr.entries
        for nme in g.order:
            d = g.defs[nme]
            st = sts[nme]
            if nme in want:
                st = Style(random.Random(1), module=st.module, noise=False, bare='\n'.join(got[nme]) + '\n')
            cr2.add_def(d, st)
        sh2 = Shard('s91', cr2, ['--bases', '4' if c.quick else '16', '--mons', 'watch,reports'])
        exes = c.build('de', [sh2])
        if not c.violations:
            c.run(exes, [sh2], label=' printed code')

    return simple(c, [p1, p2, p3, p4, p1, p2, p3, p4], n=130, mons=('watch', 'reports'), last=derived,
                  rule='Focus: Debug on fields and objects; file descriptor 1 is a file during each call, and what was written to it must be exactly the predicted reports: field, error, position, in order. '
                       'DebugDerive: the text printed while compiling is parsed, must belong to the objects that ask for it, and is compiled in the place of the derive and run against the same reference.')


LEXEME = re.compile(r"""b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?'(?:\\.[^']*|[^'\\])'|[{}]""", re.S)


def item(text):
    """the first item of the text: up to the brace that closes its body"""
    depth = 0
    for m in LEXEME.finditer(text):
        if m.group() == '{':
            depth += 1
        elif m.group() == '}':
            depth -= 1
            if depth == 0:
                return text[:m.end()]
    return text


def plain_style(r, d, dd):
    return Style(r, module=r.choice([None, None, None, 'pub', 'priv']), debugderive=dd)


ALL = {k: v for k, v in globals().items() if re.match(r'C\d\d$', k)}
