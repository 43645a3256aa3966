"""Model of a definition: rendered both as Rust derive source and as a specification (s-expression)."""
import re

# ---------------------------------------------------------------- types
# tuples: ('int',w,s) ('float',w) ('str',) ('opt',T) ('vec',T) ('arr',n,T) ('pair',A,B) ('ld',T)
#         ('def',name,args...) ('param',k) ('probe','PA') ('phantom',T) ('unit',) ('slice',) ('usize',)
U8, U16, U32, U64, U128 = [('int', w, False) for w in (1, 2, 4, 8, 16)]
I8, I16, I32, I64, I128 = [('int', w, True) for w in (1, 2, 4, 8, 16)]
INTS = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]
SLICE = ('slice',)
USIZE = ('usize',)
STR = ('str',)
UNIT = ('unit',)
PARAM = 'TUVW'


ALIAS = [0]


def ty_rs(t, lt="'a", defs=None):
    k = t[0]
    if k == 'int':
        return ('i' if t[2] else 'u') + str(8 * t[1])
    if k == 'usize':
        return 'usize'
    if k == 'float':
        return 'f32' if t[1] == 4 else 'f64'
    if k == 'str':
        return 'String'
    if k == 'opt':
        return 'Option<%s>' % ty_rs(t[1], lt, defs)
    if k == 'vec':
        return 'Vec<%s>' % ty_rs(t[1], lt, defs)
    if k == 'arr':
        # the length may be a const parameter of the definition
        return '[%s; %s]' % (ty_rs(t[2], lt, defs), getattr(t[1], 'text', t[1]))
    if k == 'pair':
        return '(%s, %s)' % (ty_rs(t[1], lt, defs), ty_rs(t[2], lt, defs))
    if k == 'ld':
        if lt in ("'a", "'b") and t[1][0] == 'int' and not t[1][2] and t[1][1] <= 8:
            # the alias names the same type
            ALIAS[0] += 1
            if ALIAS[0] % 2:
                return 'LengthDataU%d<%s>' % (8 * t[1][1], lt)
        return 'LengthData<%s, &%s [u8]>' % (ty_rs(t[1], lt, defs), lt)
    if k == 'phantom':
        return 'PhantomData<%s>' % ty_rs(t[1], lt, defs)
    if k == 'unit':
        return '()'
    if k == 'slice':
        return '&%s [u8]' % lt
    if k == 'probe':
        return 'PC<%s>' % lt if t[1] == 'PC' else t[1]
    if k == 'param':
        return PARAM[t[1]]
    if k == 'fixed':
        return t[1]
    if k == 'def':
        a = use_args(defs[t[1]], lt, [ty_rs(x, lt, defs) for x in t[2:]])
        return t[1] + ('<%s>' % ', '.join(a) if a else '')
    raise Exception(t)


class Cn(int):
    """a number written as a const parameter"""
    def __new__(cls, n, text):
        x = int.__new__(cls, n)
        x.text = text
        return x


def use_args(d, lt, tyargs=()):
    """generic arguments where the type of a definition is mentioned"""
    a = []
    if d.lifetime():
        a += [lt] * (2 if d.lt2 else 1)
    a += list(tyargs)
    a += [ty_rs(t, "'_", d.defs) for _, t in d.fixed]
    a += [str(v) for _, _, v in d.consts]
    return a


def path(d, name=None):
    """the definition in an expression path"""
    a = [ty_rs(t, "'_", d.defs) for _, t in d.fixed] + ['{ %d }' % v for _, _, v in d.consts]
    return (name or d.name) + ('::<%s>' % ', '.join(a) if a else '')


def ty_sx(t):
    k = t[0]
    if k == 'fixed':
        return ty_sx(t[2])
    if k in ('int',):
        return ('i' if t[2] else 'u') + str(8 * t[1])
    if k == 'usize':
        return 'usize'
    if k == 'float':
        return 'f32' if t[1] == 4 else 'f64'
    if k in ('str', 'unit'):
        return k
    if k == 'phantom':
        return 'phantom'
    if k == 'slice':
        return 'unit'  # never inferred; only as a carrier for Tag/Take/Parse
    if k == 'probe':
        return t[1]
    if k in ('opt', 'vec', 'ld'):
        return '(%s %s)' % (k, ty_sx(t[1]))
    if k == 'arr':
        return '(arr %d %s)' % (t[1], ty_sx(t[2]))
    if k == 'pair':
        return '(pair %s %s)' % (ty_sx(t[1]), ty_sx(t[2]))
    if k == 'param':
        return '(param %d)' % t[1]
    if k == 'def':
        return '(def %s)' % ' '.join([t[1]] + [ty_sx(x) for x in t[2:]])
    raise Exception(t)


def ty_lt(t, defs):
    """does the type mention a lifetime?"""
    k = t[0]
    if k in ('slice', 'ld'):
        return True
    if k == 'probe':
        return t[1] == 'PC'
    if k in ('opt', 'vec', 'phantom'):
        return ty_lt(t[1], defs)
    if k == 'arr':
        return ty_lt(t[2], defs)
    if k == 'pair':
        return ty_lt(t[1], defs) or ty_lt(t[2], defs)
    if k == 'fixed':
        return False
    if k == 'def':
        return defs[t[1]].lifetime() or any(ty_lt(x, defs) for x in t[2:])
    return False


def subty(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from subty(x)


# ---------------------------------------------------------------- expressions
class Ex:
    """rs: Rust text with @name@ placeholders for variables and @i@ / @orig@ for the inputs; sx: specification"""
    __slots__ = ('rs', 'sx')

    def __init__(self, rs, sx):
        self.rs = rs
        self.sx = str(sx)

    def looks(self):
        return 'ilen' in self.sx or 'olen' in self.sx


def subst(s, names):
    return re.sub(r'@(\w+)@', lambda m: names[m.group(1)], s)


# ---------------------------------------------------------------- attributes
class At:
    """one attribute: kind, Rust name(s), argument (Rust text or None), spec text; cls in chain/pre/post/endian"""
    __slots__ = ('cls', 'names', 'rs', 'sx', 'tags', 'strform')

    def __init__(self, cls, names, rs, sx, tags=(), strform=True):
        self.cls = cls
        self.names = names if isinstance(names, tuple) else (names,)
        self.rs = rs
        self.sx = sx
        self.tags = set(tags)
        self.strform = strform


class Fd:
    __slots__ = ('name', 'ty', 'endian', 'chain', 'pre', 'post', 'rsname')

    def __init__(self, name, ty, endian='-', chain=(), pre=(), post=(), rsname=None):
        self.name = name
        self.ty = ty
        self.endian = endian
        self.chain = list(chain)
        self.pre = list(pre)
        self.post = list(post)
        self.rsname = rsname or name

    def attrs(self):
        return self.chain + self.pre + self.post

    def sx(self):
        return '(f %s %s %s (%s) (%s) (%s)%s)' % (self.name, ty_sx(self.ty), self.endian, ' '.join(a.sx for a in self.chain if a.sx),
                                                 ' '.join(a.sx for a in self.pre), ' '.join(a.sx for a in self.post), ' ' + self.rsname if self.rsname != self.name else '')


class Va:
    __slots__ = ('name', 'pat_rs', 'pat_sx', 'guard', 'shape', 'fields', 'parse', 'pre', 'post')

    def __init__(self, name, pat_rs, pat_sx, guard, shape, fields, parse=None, pre=(), post=()):
        self.name, self.pat_rs, self.pat_sx, self.guard, self.shape, self.fields = name, pat_rs, pat_sx, guard, shape, fields
        self.parse, self.pre, self.post = parse, list(pre), list(post)

    def sx(self):
        return '(var %s %s %d %s (%s) (%s) %s)' % (self.pat_sx, self.guard.sx if self.guard else '-', self.shape == 'unit', self.parse.sx if self.parse else '-',
                                                  ' '.join(a.sx for a in self.pre), ' '.join(a.sx for a in self.post), ' '.join(f.sx() for f in self.fields))


class Df:
    """a definition"""

    def __init__(self, name, defs):
        self.name = name
        self.defs = defs
        self.endian = '-'
        self.setendian_top = False
        self.complete = False
        self.debug = False  # Debug on the object, with reports
        self.args = []  # (name, rust type)
        self.mutargs = set()
        self.pre = []
        self.post = []
        self.kind = 'struct'
        self.shape = 'named'
        self.fields = []
        self.selkind = None
        self.variants = []
        self.repr = None
        self.discs = []  # (name, value, explicit)
        self.tparams = 0
        self.fixed = []  # (type parameter, the type it always stands for)
        self.consts = []  # (const parameter, its type, its value)
        self.lt2 = 0  # two lifetimes: 1 unrelated, 2 the second outlives the first, 3 the converse
        self.bounds = None  # how type parameters are bounded: None, 'inline', 'where'
        self.generic_errors = False
        self.facts = set()
        self._lt = None
        self.deps = set()
        self.ndirs = 0

    def lifetime(self):
        if self._lt is None:
            fs = list(self.fields)
            for v in self.variants:
                fs += v.fields
            self._lt = any(ty_lt(f.ty, self.defs) for f in fs)
        return self._lt

    def field_lt(self, f):
        if not self.lt2 or not ty_lt(f.ty, self.defs):
            return "'a"
        b = [x for x in self.all_fields() if ty_lt(x.ty, self.defs)]
        return "'b" if b.index(f) % 2 else "'a"

    def all_fields(self):
        r = list(self.fields)
        for v in self.variants:
            r += v.fields
        return r

    def all_attrs(self):
        r = self.pre + self.post
        for f in self.all_fields():
            r += f.attrs()
        for v in self.variants:
            r += v.pre + v.post + ([v.parse] if v.parse else [])
        return r

    def sx(self):
        if self.kind == 'struct':
            b = '(struct %s)' % ' '.join(f.sx() for f in self.fields)
        elif self.kind == 'enum':
            b = '(enum %s %s)' % (self.selkind, ' '.join(v.sx() for v in self.variants))
        else:
            b = '(fieldless %s %s)' % (ty_sx(self.repr), ' '.join(str(d[1] - (1 << 128) if d[1] >> 127 > 0 else d[1]) for d in self.discs))
        return '(def %s %s %d (%s) (%s) (%s) %s)' % (self.name, self.endian, self.complete + 2 * self.debug, ' '.join(a[0] for a in self.args),
                                                    ' '.join(['(let %s %d)' % (n, v) for n, _, v in self.consts] + [a.sx for a in self.pre]), ' '.join(a.sx for a in self.post), b)

    def special(self):
        return self.kind == 'enum' or bool(self.args)


SEL_RS = {'u8': 'u8', 'i8': 'i8', 'u16': 'u16', 'i32': 'i32', 'u64': 'u64', 'opt': 'Option<u8>', 'enum': 'Sel', 'str': "&str", 'bool': 'bool', 'tup': '(u8, u8)', 'msg': 'Msg', 'chr': 'char', 'bytes': '&[u8]', 'rec': 'Rec', 'u128': 'u128', 'usize': 'usize', 'i64': 'i64'}


class Style:
    """how a definition is written; no influence on its meaning"""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.form = kw.get('form', 'mixed')  # str / paren / mixed
        self.split = kw.get('split', 'mixed')
        self.alias = kw.get('alias', 'mixed')
        self.derive = kw.get('derive', 'mixed')  # attr / macro / mixed
        self.inputname = kw.get('inputname', None)
        self.shape = kw.get('shape', None)  # force named / tuple
        self.raw = kw.get('raw', False)
        self.debug = kw.get('debug', None)  # None, 'field', 'top'
        self.debugderive = kw.get('debugderive', False)
        self.shuffle = kw.get('shuffle', True)
        self.vis = kw.get('vis', '')
        self.suffix = kw.get('suffix', '')
        self.noise = kw.get('noise', True)
        # written by a macro_rules macro: 'frag' (types, numbers and patterns are its arguments), 'pass' (the whole text is its argument)
        self.macro = kw.get('macro', None)
        self.frags = []  # (fragment kind, argument)
        self.bare = kw.get('bare', None)  # no attributes, but the text of the implementation
        self.module = kw.get('module', None)  # written in a module of its own: 'pub' or 'priv' fields, or 'crate'

    def frag(self, kind, text):
        self.frags.append((kind, text))
        return '$x%d' % (len(self.frags) - 1)

    def numbers(self, text):
        """replace a number by a macro argument which needs its own grouping"""
        if any(x in text for x in ('"', "'", 'matches!', '#')):
            return text
        c = list(re.finditer(r'(?<![\w.])\d+(?![\w.])', text))
        if not c:
            return text
        m = self.rng.choice(c)
        n = int(m.group(0))
        k = self.rng.randint(0, 3)
        if k == 0:
            x = self.frag(self.rng.choice(['tt', 'literal', 'expr']), str(n))
        else:
            a = self.rng.randint(0, n)
            x = self.frag('expr', '%d + %d' % (a, n - a))
        return text[:m.start()] + x + text[m.end():]


RAW = ['type', 'match', 'ref', 'where', 'move', 'fn', 'loop', 'in', 'mod', 'use', 'impl', 'for', 'dyn', 'as', 'let', 'async', 'struct', 'enum', 'pub', 'static', 'const', 'trait', 'mut', 'while', 'else', 'return', 'break', 'true', 'false', 'if']


def quote_str(rng, s):
    if rng.random() < 0.15 and '"#' not in s:
        return 'r#"%s"#' % s
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def render_attr(a, names, st):
    rng = st.rng
    if len(a.names) > 1:
        n = a.names[0] if st.alias == 'first' else a.names[1] if st.alias == 'second' else rng.choice(a.names)
    else:
        n = a.names[0]
    if a.rs is None:
        return n
    arg = subst(a.rs, names)
    form = st.form
    if form == 'mixed':
        form = rng.choice(['str', 'paren'])
    if not a.strform:
        form = 'paren'
    if st.macro == 'frag' and a.names[0] not in ('ExtraArgs', 'InputName', 'Selector') and form == 'paren':
        arg = st.numbers(arg)
    if '$' in arg:
        form = 'paren'
    if form == 'str':
        sp = rng.choice([' = ', '=', ' =', '= '])
        return n + sp + quote_str(rng, arg)
    return '%s(%s)' % (n, arg)


def render_attrs(groups, names, st, indent):
    """groups: lists of attributes whose relative order must be kept"""
    rng = st.rng
    if st.bare is not None:
        return ''
    groups = [list(g) for g in groups if g]
    out = []
    while groups:
        g = rng.choice(groups) if st.shuffle else groups[0]
        out.append(render_attr(g.pop(0), names, st))
        groups = [g for g in groups if g]
    if not out:
        if st.noise and rng.random() < 0.05:
            return indent + rng.choice(['/// documentation\n', '#[allow(dead_code)]\n'])
        return ''
    lines = []
    while out:
        k = len(out) if st.split == 'one' else 1 if st.split == 'many' else rng.randint(1, len(out))
        sep = ', ' if rng.random() < 0.8 else ','
        tail = ',' if rng.random() < 0.1 else ''
        a = 'nom(%s%s)' % (sep.join(out[:k]), tail)
        if st.noise and rng.random() < 0.05:
            a = 'cfg_attr(%s, %s)' % (rng.choice(['all()', 'not(any())', 'debug_assertions', 'not(debug_assertions)']), a)
            if 'debug' in a.split(',')[0]:
                # one of the two applies
                a = a + ']\n' + indent + '#[' + (a.replace('not(debug_assertions)', 'debug_assertions', 1) if 'not(debug' in a else a.replace('debug_assertions', 'not(debug_assertions)', 1))
        lines.append(indent + '#[%s]\n' % a)
        out = out[k:]
        if st.noise and rng.random() < 0.06:
            lines.append(indent + rng.choice(['/// documentation, with nom(Count = 3) in it\n', '#[allow(dead_code)]\n', '#[cfg_attr(all(), allow(unused))]\n']))
    return ''.join(lines)


def field_names(d, fields, shape, st, base):
    """rust identifiers of the fields"""
    names = dict(base)
    ids = []
    pool = list(RAW)
    st.rng.shuffle(pool)
    for k, f in enumerate(fields):
        if shape == 'tuple':
            r = '_%d' % k
        elif st.raw and pool and pool[-1] not in ('true', 'false'):
            r = 'r#' + pool.pop()
        elif st.raw and pool:
            pool.pop()
            r = f.rsname
        else:
            r = f.rsname
        names[f.name] = r
        ids.append(r)
    return names, ids


def needs_named(fields):
    return any('verify' in a.tags or 'debug' in a.tags for f in fields for a in f.chain)


def render_fields(d, fields, shape, st, base, indent):
    names, ids = field_names(d, fields, shape, st, base)
    out = []
    for f, r in zip(fields, ids):
        chain = list(f.chain)
        if st.debug == 'field' and shape == 'named' and not d.generic_errors:
            chain.insert(st.rng.randint(0, len(chain)), At('chain', 'Debug', None, '', ('debug',)))
            # Debug written after the last shaping attribute has no parser left to wrap when that one is final
            ends = [k for k, a in enumerate(chain) if 'final' in a.tags]
            if ends and any('debug' in a.tags for a in chain[ends[0] + 1:]):
                chain = [a for k, a in enumerate(chain) if k <= ends[0] or 'debug' not in a.tags]
        en = []
        if f.endian != '-':
            en = [At('endian', 'BigEndian' if f.endian == 'be' else 'LittleEndian', None, '')]
        nm = dict(names)
        nm['self'] = r
        t = render_attrs([en, chain, f.pre, f.post], nm, st, indent)
        ty = ty_rs(f.ty, d.field_lt(f), d.defs)
        if st.macro == 'frag' and rng_pick(st):
            ty = st.frag('ty', ty)
        if shape == 'named':
            t += '%s%s%s: %s,\n' % (indent, 'pub ' if indent == '    ' else '', r, ty)
        else:
            t += '%s%s%s,\n' % (indent, 'pub ' if indent == '    ' else '', ty)
        out.append(t)
    return ''.join(out), names, ids


def rng_pick(st):
    return st.rng.random() < 0.6


def merge_keep(pre, post, rng):
    return [pre, post]


def generics(d, bound='', decl=False):
    """generic parameters: of an impl with `bound`, of the declaration itself, or as arguments"""
    g = []
    full = decl or bound
    if d.lifetime():
        l = ["'a"] if not d.lt2 else ["'a", "'b"] if d.lt2 == 1 or not full else ["'a", "'b: 'a"] if d.lt2 == 2 else ["'a: 'b", "'b"]
        g += l
    tp = [PARAM[k] for k in range(d.tparams)] + [n for n, _ in d.fixed]
    if decl and d.bounds == 'inline':
        bound = ': ToVal'
    g += [n + bound for n in tp]
    if decl and d.bounds == 'default' and tp and not d.consts:
        g[-1] += ' = u8'
    g += ['const %s: %s' % (n, t) if full else n for n, t, _ in d.consts]
    return '<%s>' % ', '.join(g) if g else ''


def where(d):
    tp = [PARAM[k] for k in range(d.tparams)] + [n for n, _ in d.fixed]
    if d.bounds == 'hrtb':
        return ' where ' + ', '.join("for<'z> %s: Hr<'z>" % n for n in tp)
    if d.bounds == 'nested':
        return ' where ' + ', '.join('%s: ToVal, [%s; 2]: ToVal' % (('Option<%s>' if k % 2 else 'Vec<%s>') % n, n) for k, n in enumerate(tp))
    if d.bounds == 'where':
        w = ['%s: ToVal' % n for n in [PARAM[k] for k in range(d.tparams)] + [n for n, _ in d.fixed]]
        if d.lifetime():
            w.append("'a: 'a")
        if w:
            return ' where ' + ', '.join(w)
    return ''


def render_def(d, st, std=True):
    """Rust source of the definition and its ToVal implementation"""
    rng = st.rng
    name = d.name + st.suffix
    inp = st.inputname or 'i'
    base = {'i': inp, 'orig': 'orig_' + inp}
    for a, _ in d.args:
        base[a] = a
    for a, _, _ in d.consts:
        base[a] = a
    # pattern and let bound names stand for themselves
    for n in getattr(d, 'free', ()):
        base[n] = n
    o = []
    tl = []
    use_macro = d.endian in ('be', 'le') and (st.derive == 'macro' or (st.derive == 'mixed' and rng.random() < 0.5))
    dn = 'Nom' if not use_macro else 'NomBE' if d.endian == 'be' else 'NomLE'
    if d.endian in ('be', 'le') and not use_macro:
        tl.append([At('tl', 'BigEndian' if d.endian == 'be' else 'LittleEndian', None, '')])
    elif use_macro and st.derive == 'mixed' and rng.random() < 0.2:
        # redundant but consistent
        tl.append([At('tl', 'BigEndian' if d.endian == 'be' else 'LittleEndian', None, '')])
    if d.complete:
        tl.append([At('tl', 'Complete', None, '')])
    if d.generic_errors:
        tl.append([At('tl', 'GenericErrors', None, '')])
    if st.inputname:
        tl.append([At('tl', 'InputName', st.inputname, '')])
    if st.debugderive:
        tl.append([At('tl', 'DebugDerive', None, '')])
    if d.kind == 'enum':
        sel = SEL_RS[d.selkind]
        tl.append([At('tl', 'Selector', sel, '')])
    if d.args:
        tl.append([At('tl', 'ExtraArgs', ', '.join('%s%s: %s' % ('mut ' if a[0] in d.mutargs else '', *a) for a in d.args), '', strform=False)])
    tl.append(d.pre)
    tl.append(d.post)
    body = ''
    tv = ''
    names = dict(base)
    if d.kind == 'struct':
        shape = d.shape
        if shape != 'unit' and d.fields:
            if st.shape and not (st.shape == 'tuple' and needs_named(d.fields)):
                shape = st.shape
        if (st.debug == 'top' and shape == 'named' and not d.generic_errors) or d.debug:
            tl.append([At('tl', 'Debug', None, '')])
        fs, names, ids = render_fields(d, d.fields, shape, st, base, '    ')
        if shape == 'unit':
            body = 'pub struct %s;\n' % name
        elif shape == 'named':
            body = 'pub struct %s%s%s {\n%s}\n' % (name, generics(d, decl=True), where(d), fs)
        else:
            body = 'pub struct %s%s(\n%s)%s;\n' % (name, generics(d, decl=True), fs, where(d))
        acc = ['self.%s.tv(b)' % (r if shape == 'named' else str(k)) for k, r in enumerate(ids)]
        tv = 'Val::St(vec![%s])' % ', '.join(acc)
    elif d.kind == 'enum':
        arms = []
        vs = []
        dbg_top = st.debug == 'top' and not d.generic_errors and all(v.shape != 'tuple' or not v.fields for v in d.variants)
        if dbg_top or d.debug:
            tl.append([At('tl', 'Debug', None, '')])
        for k, v in enumerate(d.variants):
            shape = v.shape
            if shape != 'unit' and st.shape and v.fields and not (st.shape == 'tuple' and needs_named(v.fields)) and not dbg_top:
                shape = st.shape
            fs, nm, ids = render_fields(d, v.fields, shape, st, base, '        ')
            pat = v.pat_rs
            if st.macro == 'frag' and re.match(r'^[\d\s|.=-]+$', pat) and rng_pick(st):
                pat = st.frag('pat', pat)
            if v.guard:
                g = subst(v.guard.rs, base)
                pat += ' if ' + (st.numbers(g) if st.macro == 'frag' else g)
            sel = At('tl', 'Selector', pat, '')
            g = [[sel]]
            if shape == 'unit':
                if v.parse:
                    g.append([v.parse])
                g += [v.pre, v.post]
            vs.append(render_attrs(g, base, st, '    '))
            if shape == 'unit':
                vs.append('    %s,\n' % v.name)
                arms.append('%s::%s => Val::Var(%d, vec![])' % (name, v.name, k))
            elif shape == 'named':
                vs.append('    %s {\n%s    },\n' % (v.name, fs))
                arms.append('%s::%s { %s } => Val::Var(%d, vec![%s])' % (name, v.name, ', '.join('%s: x%d' % (r, n) for n, r in enumerate(ids)), k, ', '.join('x%d.tv(b)' % n for n in range(len(ids)))))
            else:
                vs.append('    %s(\n%s    ),\n' % (v.name, fs))
                arms.append('%s::%s(%s) => Val::Var(%d, vec![%s])' % (name, v.name, ', '.join('x%d' % n for n in range(len(ids))), k, ', '.join('x%d.tv(b)' % n for n in range(len(ids)))))
        body = 'pub enum %s%s%s {\n%s}\n' % (name, generics(d, decl=True), where(d), ''.join(vs))
        tv = 'match self { %s }' % ', '.join(arms)
    else:
        vs = []
        arms = []
        for k, (n, v, ex) in enumerate(d.discs):
            if st.noise and rng.random() < 0.1:
                vs.append('    /// variant\n')
            vs.append('    %s%s,\n' % (n, ' = %s' % v if ex else ''))
            arms.append('%s::%s => Val::Var(%d, vec![])' % (name, n, k))
        body = '#[repr(%s)]\npub enum %s {\n%s}\n' % (ty_rs(d.repr), name, ''.join(vs))
        tv = 'match self { %s }' % ', '.join(arms)
    # top-level attributes; field names are in scope of PostExec of structs
    names = dict(names)
    if d.kind == 'struct':
        for k, (f, r) in enumerate(zip(d.fields, ids)):
            names['sd_' + f.name] = r if shape == 'named' else str(k)
    head = render_attrs(tl, names, st, '')
    if st.macro == 'frag':
        o.append('macro_rules! mk_%s {\n    (%s) => {\n#[derive(%s)]\n%s%s    };\n}\nmk_%s!(%s);\n' % (
            name, ', '.join('$x%d:%s' % (k, f[0]) for k, f in enumerate(st.frags)), dn, head, body, name, ', '.join(f[1] for f in st.frags)))
    elif st.macro == 'pass':
        o.append('macro_rules! mk_%s { ($($t:tt)*) => { #[derive(%s)] $($t)* } }\nmk_%s! {\n%s%s}\n' % (name, dn, name, head, body))
    elif st.bare is not None:
        o.append(body + st.bare)
    else:
        o.append('#[derive(%s)]\n' % dn + head + body)
    gi = generics(d, ': ToVal')
    o.append('impl%s ToVal for %s%s { #[allow(unused_variables)] fn tv(&self, b: Base) -> Val { %s } }\n' % (gi, name, generics(d), tv))
    s = ''.join(o)
    if st.module:
        if st.module == 'priv':
            s = re.sub(r'^    pub (?!struct|enum|fn)', '    ', s, flags=re.M)
        vis = 'pub'
        if st.module == 'crate':
            vis = 'pub(crate)'
            s = re.sub(r'^pub (?=struct|enum)', 'pub(crate) ', s, flags=re.M)
        if vis == 'pub':
            # two modules deep: what is only visible in the parent module is not enough
            s = 'mod deep {\nuse super::*;\n%s}\npub use self::deep::%s;\n' % (s, name)
        s = 'mod in_%s {\nuse super::*;\n%s}\n%s use self::in_%s::%s;\n' % (name, s, vis, name, name)
    return s
