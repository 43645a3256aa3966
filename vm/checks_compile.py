"""C17: definitions that must not compile, each next to a minimally corrected one.  C18: feature configurations."""
import itertools
import json
import os
import random
import re
import time
from concurrent.futures import ThreadPoolExecutor

from checks import ASSUME, RULE, lib_crate, pb, seed_of
from driver import CORES, NoAnswer, Shard, sh, write
from progen import DEFAULT, HEAD_NOSTD, build_crate, prof

PRELUDE = '''#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens, unreachable_patterns, unreachable_code)]
use nom_derive::*;
use nom_derive::nom;
use std::marker::PhantomData;
use std::collections::{HashMap, VecDeque};
pub fn vle(_: &[u8]) -> nom::number::Endianness { nom::number::Endianness::Little }
pub fn uparse(i: &[u8]) -> nom::IResult<&[u8], u8> { nom::number::streaming::be_u8(i) }
pub struct NotParse(pub u8);
'''

ENDIAN = ['BigEndian', 'LittleEndian', 'SetEndian']
# a legal argument of every attribute that takes one: (text, field type it goes with)
ARGS = {
    'AlignAfter': '4', 'AlignBefore': '2', 'Cond': 'true', 'If': 'true', 'Count': '2', 'ErrorIf': 'false', 'LengthCount': 'u8::parse_be',
    'Map': '|x: u8| x', 'Move': '1', 'MoveAbs': '0', 'Parse': 'uparse', 'PostExec': 'let z = 1;', 'PreExec': 'let z = 1;',
    'SetEndian': 'nom::number::Endianness::Little', 'SkipAfter': '1', 'SkipBefore': '1', 'Tag': 'b"AB"', 'Take': '2', 'Value': '3', 'Verify': 'true',
    'ExtraArgs': 'a: u8', 'InputName': 'inp', 'Selector': 'u8',
}
FIELD_ONLY = ['AlignAfter', 'AlignBefore', 'Cond', 'If', 'Count', 'ErrorIf', 'Ignore', 'Default', 'Into', 'LengthCount', 'Map', 'Move', 'MoveAbs', 'Parse',
              'SkipAfter', 'SkipBefore', 'Tag', 'Take', 'Value', 'Verify']
TOP_ONLY = ['DebugDerive', 'Exact', 'ExtraArgs', 'GenericErrors', 'InputName']
FIELD_TY = {'Cond': 'Option<u8>', 'If': 'Option<u8>', 'Count': 'Vec<u8>', 'LengthCount': 'Vec<u8>', 'Tag': "&'a [u8]", 'Take': "&'a [u8]", 'Into': 'u8'}
PLAIN = ['u8', 'u16', 'i32', 'u64', 'f32', 'Option<u8>', 'Vec<u16>', '[u8; 3]', 'u128', 'PhantomData<u8>']
KNOWN = set(ARGS) | set(FIELD_ONLY) | set(TOP_ONLY) | {'BigEndian', 'LittleEndian', 'Complete', 'Debug', 'DebugDerive'}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0

    # ---- rendering
    def at(self, name, arg=None, form=None):
        """one attribute: parenthesised or string form"""
        r = self.r
        if arg is None:
            arg = ARGS.get(name)
        if arg is None or form == 'bare':
            return name
        if name == 'ExtraArgs' or form == 'paren' or r.random() < 0.5:
            return '%s(%s)' % (name, arg)
        return '%s = %s' % (name, 'r#"%s"#' % arg if '"' in arg else '"%s"' % arg)

    def attrs(self, xs):
        """attribute texts -> one or several #[nom(..)] lists"""
        if not xs:
            return ''
        r = self.r
        out, cur = [], []
        for x in xs:
            cur.append(x)
            if r.random() < 0.4:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        s = ''
        for k, c in enumerate(out):
            if r.random() < 0.2:
                s += r.choice(['/// documented\n', '#[allow(unused)]\n'])
            s += '#[nom(%s)]\n' % ', '.join(c)
        return s

    def mix(self, xs):
        xs = list(xs)
        self.r.shuffle(xs)
        return xs

    def others(self, lo=0, hi=3):
        r = self.r
        out = []
        for _ in range(r.randint(lo, hi)):
            t = r.choice(PLAIN)
            a = []
            if r.random() < 0.2 and t not in ('PhantomData<u8>',):
                a.append(r.choice(['BigEndian', 'LittleEndian']))
            if r.random() < 0.2:
                a.append(self.at(r.choice(['AlignAfter', 'SkipBefore', 'ErrorIf', 'Complete', 'PreExec', 'PostExec'])))
            out.append((a, t))
        return out

    def where(self, good, bad, shapes=('named', 'tuple', 'vnamed', 'vtuple'), top=(), derive=None, lead=True):
        """the same object around a good and a bad field (attributes, type); None: the field is absent"""
        r = self.r
        self.n += 1
        sh_ = r.choice(shapes)
        before, after = (self.others() if lead else []), self.others()
        dv = derive or r.choice(['Nom', 'Nom', 'NomBE', 'NomLE'])
        st = r.getstate()
        res = []
        vname = r.choice(['V', 'Some1', 'Other'])
        st = r.getstate()
        for f in (good, bad):
            r.setstate(st)
            fs = before + ([f] if f is not None else []) + after
            lt = "<'a>" if any("'a" in t for _, t in fs) else ''
            if sh_ in ('named', 'vnamed'):
                pub = 'pub ' if sh_ == 'named' else ''
                body = ' {\n%s}' % ''.join('%s%sf%d: %s,\n' % (self.attrs(a), pub, k, t) for k, (a, t) in enumerate(fs))
            else:
                pub = 'pub ' if sh_ == 'tuple' else ''
                body = '(\n%s)' % ''.join('%s%s%s,\n' % (self.attrs(a), pub, t) for k, (a, t) in enumerate(fs))
            tl = self.attrs(list(top) + (['Selector(u8)'] if sh_[0] == 'v' else []))
            if sh_[0] == 'v':
                res.append('#[derive(%s)]\n%spub enum S%s {\n#[nom(Selector(0))]\nFirst,\n#[nom(Selector(1))]\n%s%s,\n}\n' % (dv, tl, lt, vname, body))
            else:
                res.append('#[derive(%s)]\n%spub struct S%s%s%s\n' % (dv, tl, lt, body, ';' if sh_ == 'tuple' else ''))
        return res[0], res[1], sh_

    def whole(self, goodtop, badtop, kinds=('named', 'tuple', 'unit', 'enum', 'fieldless'), derive=None, badderive=None):
        """the same object under good and bad top-level attributes"""
        r = self.r
        self.n += 1
        k = r.choice(kinds)
        fs = self.others(1, 3)
        dv = derive or r.choice(['Nom', 'NomBE', 'NomLE'])
        rp = r.choice(['u8', 'i8', 'u16', 'i32', 'u64', 'u128'])
        st = r.getstate()
        res = []
        for n, (tops, d) in enumerate(((goodtop, dv), (badtop, badderive or dv))):
            r.setstate(st)
            tops = list(tops)
            if k == 'enum':
                tops = ['Selector(u8)'] + tops
            tl = self.attrs(tops)
            r.setstate(st)
            r.random()
            if k == 'named':
                body = 'pub struct S {\n%s}\n' % ''.join('%spub f%d: %s,\n' % (self.attrs(a), j, t) for j, (a, t) in enumerate(fs))
            elif k == 'tuple':
                body = 'pub struct S(\n%s);\n' % ''.join('%spub %s,\n' % (self.attrs(a), t) for a, t in fs)
            elif k == 'unit':
                body = 'pub struct S;\n'
            elif k == 'enum':
                body = 'pub enum S {\n#[nom(Selector(0))]\nA,\n#[nom(Selector(1))]\nB(\n%s),\n}\n' % ''.join('%s%s,\n' % (self.attrs(a), t) for a, t in fs)
            else:
                body = '#[repr(%s)]\n#[derive(Clone, Copy)]\npub enum S { A, B = 3, C }\n' % rp
            res.append('#[derive(%s)]\n%s%s' % (d, tl, body))
        return res[0], res[1], k

    # ---- faults: each returns (good, bad, shape)
    def f_endian_field(self):
        r = self.r
        two = r.sample(ENDIAN, r.choice([2, 2, 2, 3]))
        t = r.choice([x for x in PLAIN if 'Phantom' not in x])
        extra = self.mix(r.sample([self.at('Complete'), self.at('ErrorIf'), self.at('SkipAfter')], r.randint(0, 2)))
        good = [self.at(r.choice(two[:1]))] + extra
        bad = self.mix([self.at(x) for x in two] + extra)
        return self.where((good, t), (bad, t), derive='Nom')

    def f_endian_object(self):
        r = self.r
        two = r.sample(ENDIAN, r.choice([2, 2, 2, 3]))
        kinds = ('named', 'tuple', 'unit', 'enum', 'fieldless')
        if two[0] == 'SetEndian':
            kinds = kinds[:4]
        return self.whole([self.at(two[0])], self.mix([self.at(x) for x in two]), kinds=kinds, derive='Nom')

    def f_endian_derive(self):
        r = self.r
        dv, other, same = r.choice([('NomBE', 'LittleEndian', 'BigEndian'), ('NomLE', 'BigEndian', 'LittleEndian')])
        if r.random() < 0.35:
            return self.whole([], [self.at('SetEndian')], kinds=('named', 'tuple', 'unit', 'enum'), derive=dv)
        return self.whole(r.choice([[], [same]]), [other], derive=dv)

    def f_endian_derive_macro(self):
        """the attribute is right, the derive macro is the wrong one"""
        r = self.r
        x = r.choice([('BigEndian', 'NomLE', ['NomBE', 'Nom']), ('LittleEndian', 'NomBE', ['NomLE', 'Nom']), ('SetEndian', 'NomBE', ['Nom']), ('SetEndian', 'NomLE', ['Nom'])])
        t = [self.at(x[0])]
        return self.whole(t, t, kinds=('named', 'tuple', 'enum'), derive=r.choice(x[2]), badderive=x[1])

    def f_field_attr_on_top(self):
        a = self.at(self.r.choice(FIELD_ONLY))
        rest = self.r.choice([[], ['Complete'], [self.at('InputName')]])
        return self.whole(rest, self.mix(rest + [a]))

    def f_top_attr_on_field(self):
        r = self.r
        a = self.at(r.choice(TOP_ONLY))
        t = r.choice(PLAIN)
        rest = r.choice([[], [self.at('AlignBefore')], ['Complete']])
        return self.where((rest, t), (self.mix(rest + [a]), t))

    def f_top_attr_on_variant(self):
        r = self.r
        self.n += 1
        a = self.at(r.choice(TOP_ONLY))
        body = r.choice(['', '(u8)', ' { a: u16 }', '(u8, Option<u8>)'])
        v = '#[derive(Nom)]\n#[nom(Selector(u8))]\npub enum S {\n#[nom(Selector(0))]\nA,\n%sB%s,\n}\n'
        g, b = ['Selector(1)'], self.mix(['Selector(1)', a])
        return v % (self.attrs(g), body), v % (self.attrs(b), body), 'variant'

    def typo(self):
        r = self.r
        while True:
            s = list(r.choice(sorted(KNOWN)))
            k = r.randint(0, 4)
            i = r.randrange(len(s))
            if k == 0:
                s[i] = s[i].swapcase()
            elif k == 1:
                del s[i]
            elif k == 2:
                s.insert(i, r.choice('aeioustXY_'))
            elif k == 3:
                s = list(''.join(s).lower())
            else:
                s = s + list(r.choice(['s', 'Field', '2', '_', 'Before']))
            t = ''.join(s)
            if t not in KNOWN and re.match(r'^[A-Za-z_]\w*$', t) and t not in ('if', 'move', 'default', '_', 'Self', 'self') and len(t) > 1:
                return t

    def f_unknown_field(self):
        r = self.r
        u = self.typo()
        u = r.choice([u, '%s(2)' % u, '%s = "2"' % u])
        t = r.choice(PLAIN)
        rest = r.choice([[], [self.at('AlignBefore')], ['Complete']])
        return self.where((rest, t), (self.mix(rest + [u]), t))

    def f_unknown_top(self):
        r = self.r
        u = self.typo()
        u = r.choice([u, '%s(u8)' % u, '%s = "2"' % u])
        rest = r.choice([[], ['Complete'], [self.at('PreExec')]])
        return self.whole(rest, self.mix(rest + [u]))

    def f_missing_arg(self):
        """the attribute written without its argument, or with an empty one"""
        r = self.r
        a = r.choice([x for x in ARGS if x not in ('ExtraArgs', 'InputName', 'Selector')])
        t = FIELD_TY.get(a, 'u8')
        empty = a not in ('PreExec', 'PostExec') and r.random() < 0.4
        top = a in ('SetEndian', 'PreExec', 'PostExec') and r.random() < 0.4
        bad = a + '()' if empty else a
        good = self.at(a)
        if top:
            return self.whole([good], [bad], kinds=('named', 'tuple', 'enum'), derive='Nom')
        return self.where(([good], t), ([bad], t), shapes=('named', 'vnamed') if a == 'Verify' else ('named', 'tuple', 'vnamed', 'vtuple'), derive='Nom')

    def f_missing_top_arg(self):
        r = self.r
        a = r.choice(['ExtraArgs', 'InputName'])
        bad = r.choice([a, a + '()'])
        return self.whole([self.at(a)], [bad], kinds=('named', 'tuple', 'enum'))

    def f_missing_selector_arg(self):
        self.n += 1
        v = '#[derive(Nom)]\n#[nom(%s)]\npub enum S {\n#[nom(%s)]\nA,\n#[nom(Selector(1))]\nB(u8),\n}\n'
        b = self.r.choice([('Selector', 'Selector(0)'), ('Selector(u8)', 'Selector'), ('Selector()', 'Selector(0)'), ('Selector(u8)', 'Selector()')])
        return v % ('Selector(u8)', 'Selector(0)'), v % b, 'enum'

    def f_count_type(self):
        r = self.r
        el = r.choice(['u8', 'u32', 'i64', 'f64'])
        bad = r.choice(['%s', 'Option<%s>', '[%s; 2]', 'VecDeque<%s>', 'Box<%s>', 'Box<[%s]>', 'std::vec::Vec<%s>', '(%s, u8)', "&'a [%s]"]) % el
        pre, wrap = [], '%s'
        if r.random() < 0.3:
            pre, wrap = [self.at('Cond')], 'Option<%s>'
        elif r.random() < 0.3:
            pre = [r.choice(['Complete', 'Complete'])]
        a = pre + [self.at(r.choice(['Count', 'LengthCount']))]
        if r.random() < 0.25:
            # what follows would turn the Vec into the type of the field
            sub = r.choice([[], [self.at('Parse', 'uparse')], ['Complete']])
            m = lambda f: [self.at('Map', f)] + pre + a[len(pre):] + sub
            if pre[:1] and wrap != '%s':
                return self.where((m('|x: Option<Vec<u8>>| x'), 'Option<Vec<u8>>'), (m('|x: Option<Vec<u8>>| x.map(|v| v.len())'), 'Option<usize>'))
            return self.where((m('|x: Vec<u8>| x'), 'Vec<u8>'), (m(r.choice(['|x: Vec<u8>| x.len()', '|x: Vec<u8>| usize::from(x[0])'])), 'usize'))
        return self.where((a, wrap % ('Vec<%s>' % el)), (a, wrap % bad))

    def f_cond_type(self):
        r = self.r
        el = r.choice(['u8', 'u32', 'i64', 'f64', 'Vec<u8>'])
        bad = r.choice(['%s', 'Vec<%s>', '[%s; 2]', 'std::option::Option<%s>', 'Result<%s, u8>', 'Box<%s>']) % el
        a = [self.at(r.choice(['Cond', 'If']))]
        if r.random() < 0.25:
            # what follows would turn the Option into the type of the field
            sub = r.choice([[], [self.at('Parse', 'uparse')], ['Complete'], ['Complete', self.at('Parse', 'uparse')]])
            m = lambda f: r0 + [self.at('Map', f)] + a + sub
            r0 = r.choice([[], ['Complete']])
            return self.where((m('|x: Option<u8>| x'), 'Option<u8>'), (m(r.choice(['|x: Option<u8>| x.unwrap_or(0)', '|x: Option<u8>| x.map_or(1, |y| y)'])), 'u8'))
        if r.random() < 0.3:
            a = ['Complete'] + a
        wrap = '%s'
        if r.random() < 0.3:
            a, wrap = [self.at('Count')] + a, 'Vec<%s>'
        return self.where((a, wrap % ('Option<%s>' % el)), (a, wrap % bad))

    def f_unnamed(self):
        r = self.r
        self.n += 1
        a = r.choice([self.at('Verify'), 'Debug'])
        t = r.choice(['u8', 'u16', 'i64', 'Option<u8>', 'Vec<u16>'] if a == 'Debug' else ['u8', 'u16', 'i64'])
        pre = []
        if r.random() < 0.3:
            pre, t = [self.at('Count')], 'Vec<%s>' % t
        elif r.random() < 0.3:
            pre = ['Complete']
        enum = r.random() < 0.5
        st = r.getstate()
        out = []
        for named in (True, False):
            r.setstate(st)
            at = self.attrs(pre + [a])
            if enum:
                f = '{ x: u8, %s y: %s }' % (at, t) if named else '(u8, %s %s)' % (at, t)
                out.append('#[derive(Nom)]\n#[nom(Selector(u8))]\npub enum S {\n#[nom(Selector(0))]\nA%s,\n}\n' % f)
            else:
                out.append('#[derive(Nom)]\npub struct S %s\n' % ('{ pub x: u8, %s pub y: %s }' % (at, t) if named else '(pub u8, %s pub %s);' % (at, t)))
        return out[0], out[1], 'unnamed'

    def f_debug_top_unnamed(self):
        return self.whole([], ['Debug'], kinds=('tuple', 'enum'))

    def f_enum_no_selector(self):
        r = self.r
        self.n += 1
        fs = r.choice(['B(u8)', 'B { a: u16 }', 'B(u8, u8)', 'B(u8), C'])
        if 'C' in fs:
            fs = 'B(u8), #[nom(Selector(2))] C'
        v = '#[derive(%s)]\n%spub enum S {\n#[nom(Selector(0))]\nA,\n#[nom(Selector(1))]\n%s,\n}\n'
        dv = r.choice(['Nom', 'NomBE', 'NomLE'])
        top = r.choice([[], ['Complete']])
        # a repr is no selector
        rp = r.choice(['', '#[repr(u8)]\n'])
        return v % (dv, self.attrs(top + ['Selector(u8)']), fs), v % (dv, self.attrs(top) + rp, fs), 'enum'

    def f_fieldless_no_repr(self):
        r = self.r
        self.n += 1
        dv = r.choice(['Nom', 'NomBE', 'NomLE'])
        b = r.choice(['A, B', 'A = 4, B = 9, C', 'A'])
        if b == 'A':
            b = 'A, B = 200'
        top = self.attrs(r.choice([[], ['Complete']]))
        return '#[derive(%s)]\n%s#[repr(%s)]\npub enum S { %s }\n' % (dv, top, r.choice(['u8', 'u16', 'i32']), b), '#[derive(%s)]\n%spub enum S { %s }\n' % (dv, top, b), 'fieldless'

    def f_variant_no_selector(self):
        r = self.r
        self.n += 1
        n = r.randint(1, 4)
        bad = r.randrange(n)
        bodies = [r.choice(['', '(u8)', ' { a: u16 }', '(u8, Option<u8>)']) for _ in range(n)]
        if all(b == '' for b in bodies):
            bodies[r.randrange(n)] = '(u32)'
        other = r.choice([None, None, self.at('PreExec')]) if bodies[bad] == '' else None
        out = []
        for k in (None, bad):
            vs = ''
            for j, b in enumerate(bodies):
                a = (['Selector(%d)' % j] if j != k else []) + ([other] if other and j == bad else [])
                vs += (('#[nom(%s)]\n' % ', '.join(a)) if a else '') + 'V%d%s,\n' % (j, b)
            out.append('#[derive(Nom)]\n#[nom(Selector(u8))]\npub enum S {\n%s}\n' % vs)
        return out[0], out[1], 'enum'

    def f_repr(self):
        r = self.r
        self.n += 1
        dv = r.choice(['Nom', 'NomBE', 'NomLE'])
        bad = r.choice(['C', 'C', 'usize', 'isize', 'Rust', 'f32', 'bool', 'char'])
        v = '#[derive(%s)]\n#[repr(%%s)]\npub enum S { A = 1, B }\n' % dv
        return v % r.choice(['u8', 'i16', 'u32', 'i64', 'i128']), v % bad, 'fieldless'

    def f_fieldless_setendian(self):
        return self.whole([self.r.choice(['BigEndian', 'LittleEndian'])], [self.at('SetEndian')], kinds=('fieldless',), derive='Nom')

    def f_fieldless_extraargs(self):
        rest = self.r.choice([[], ['Complete']])
        return self.whole(rest, rest + ['ExtraArgs(%s)' % self.r.choice(['a: u8', 'a: u8, b: u16', 'sz: usize'])], kinds=('fieldless',))

    def f_union(self):
        r = self.r
        self.n += 1
        dv = r.choice(['Nom', 'NomBE', 'NomLE'])
        rp = r.choice(['', '#[repr(C)]\n'])
        b = '{ pub a: u8, pub b: %s }' % r.choice(['u16', 'u32', '[u8; 2]'])
        return '#[derive(%s)]\n%spub struct S %s\n' % (dv, rp, b), '#[derive(%s)]\n%spub union S %s\n' % (dv, rp, b), 'union'

    def f_uninferable(self):
        r = self.r
        base = r.choice(["&'a [u8]", '(u8, u16)', 'std::string::String', 'core::marker::PhantomData<u8>', 'bool', 'char', 'usize', 'isize', 'Box<u8>', 'HashMap<u8, u8>',
                         'NotParse', '()', 'fn(u8) -> u8', '*const u8', "&'a str", "&'a u8", 'VecDeque<u8>', '((u8))', 'impl_u8!()', 'nom::number::Endianness', 'Result<u8, u8>'])
        if base in ('((u8))', 'impl_u8!()'):
            base = '(u8, u8, u8)'
        wrap = r.choice(['%s', '%s', '%s', 'Option<%s>', 'Vec<%s>', '[%s; 2]'])
        if wrap != '%s' and base in ('(u8, u16)',):
            base = 'bool'  # pairs are inferable below Option and Vec
        if wrap != '%s' and base == 'std::string::String':
            base = 'char'  # below a type the full path is fine
        if wrap != '%s' and base.startswith('core::'):
            base = 'usize'
        t = wrap % base
        how = r.randint(0, 2)
        good = ([], r.choice(['u8', 'Vec<u8>', '[u16; 2]'])) if how == 0 else (['Parse(uany)'], t)
        if how == 2 and base in ('bool', 'char', 'usize', 'isize') and wrap in ('%s', 'Option<%s>', 'Vec<%s>'):
            good = ([r.choice(['Ignore', 'Default'])], t)
        g, b, s = self.where(good, ([], t))
        u = 'pub fn uany<T>(_i: &[u8]) -> nom::IResult<&[u8], T> { unimplemented!() }\n'
        return u + g, u + b, s

    def f_uninferable_sub(self):
        """a sub-parser that cannot be inferred below a combinator attribute"""
        r = self.r
        base = r.choice(["&'a [u8]", 'std::string::String', 'bool', 'usize', 'char', 'NotParse', '()', '(u8, u16)'])
        a, w = r.choice([([self.at('Cond')], 'Option<%s>'), ([self.at('Count')], 'Vec<%s>'), ([self.at('LengthCount')], 'Vec<%s>'), (['Complete'], '%s'),
                         ([self.at('Cond'), self.at('Count')], 'Option<Vec<%s>>')])
        u = 'pub fn uany<T>(_i: &[u8]) -> nom::IResult<&[u8], T> { unimplemented!() }\n'
        g, b, s = self.where((a + ['Parse(uany)'], w % base), (a, w % base))
        return u + g, u + b, s

    def f_multi_segment_attr(self):
        r = self.r
        p = r.choice(['nom::Count(2)', 'a::BigEndian', 'std::Take(1)'])
        t = r.choice(PLAIN)
        if r.random() < 0.4:
            return self.whole([], [p])
        return self.where(([], t), ([p], t))

    def f_conflict_derive_twice(self):
        """two derive macros on one type: conflicting implementations"""
        r = self.r
        self.n += 1
        a, b = r.sample(['Nom', 'NomBE', 'NomLE'], 2)
        body = r.choice(['pub struct S { pub a: u16 }\n', 'pub struct S(pub u8, pub u32);\n', '#[repr(u16)]\npub enum S { A, B }\n'])
        return '#[derive(%s)]\n%s' % (a, body), '#[derive(%s, %s)]\n%s' % (a, b, body), 'struct'


WEIGHTS = dict(f_endian_field=8, f_endian_object=7, f_endian_derive=7, f_endian_derive_macro=4, f_field_attr_on_top=10, f_top_attr_on_field=7, f_top_attr_on_variant=4,
               f_unknown_field=5, f_unknown_top=5, f_missing_arg=10, f_missing_top_arg=3, f_missing_selector_arg=3, f_count_type=7, f_cond_type=6, f_unnamed=5,
               f_debug_top_unnamed=3, f_enum_no_selector=4, f_fieldless_no_repr=3, f_variant_no_selector=5, f_repr=4, f_fieldless_setendian=2, f_fieldless_extraargs=3,
               f_union=2, f_uninferable=8, f_uninferable_sub=5, f_multi_segment_attr=2, f_conflict_derive_twice=2)


def every(g):
    """each attribute once in each place it must not be in, each pair of byte orders: not left to chance"""
    out = []
    for a in FIELD_ONLY:
        for kinds in (('named', 'tuple'), ('enum',), ('fieldless',)):
            gd, b, s = g.whole([], [g.at(a)], kinds=kinds)
            out.append(('f_field_attr_on_top', gd, b, s))
    for a in TOP_ONLY:
        for shapes in (('named',), ('tuple',), ('vnamed',), ('vtuple',)):
            gd, b, s = g.where(([], 'u8'), ([g.at(a)], 'u8'), shapes=shapes)
            out.append(('f_top_attr_on_field', gd, b, s))
    for x in ENDIAN:
        for y in ENDIAN:
            if x != y:
                for shapes in (('named', 'tuple'), ('vnamed', 'vtuple')):
                    gd, b, s = g.where(([g.at(x)], 'u16'), ([g.at(x), g.at(y)], 'u16'), shapes=shapes, derive='Nom')
                    out.append(('f_endian_field', gd, b, s))
                for kinds in (('named', 'tuple', 'unit'), ('enum',), ('fieldless',)):
                    if kinds == ('fieldless',) and x == 'SetEndian':
                        continue
                    gd, b, s = g.whole([g.at(x)], [g.at(x), g.at(y)], kinds=kinds, derive='Nom')
                    out.append(('f_endian_object', gd, b, s))
    for dv, x in (('NomBE', 'LittleEndian'), ('NomLE', 'BigEndian'), ('NomBE', 'SetEndian'), ('NomLE', 'SetEndian')):
        for kinds in (('named', 'tuple'), ('enum',), ('fieldless',)):
            gd, b, s = g.whole([], [g.at(x)], kinds=kinds, derive=dv)
            out.append(('f_endian_derive', gd, b, s))
    for a in ARGS:
        if a in ('ExtraArgs', 'InputName', 'Selector'):
            continue
        gd, b, s = g.where(([g.at(a)], FIELD_TY.get(a, 'u8')), ([a], FIELD_TY.get(a, 'u8')), shapes=('named', 'vnamed'), derive='Nom')
        out.append(('f_missing_arg', gd, b, s))
    return out


def C17(c):
    g = Gen(seed_of(c, 0))
    want = 1400 if c.quick else 6000
    cases = every(g)
    names, ws = list(WEIGHTS), list(WEIGHTS.values())
    for n in names:
        for _ in range(3):
            cases.append((n,) + getattr(g, n)())
    while len(cases) < want:
        n = g.r.choices(names, ws)[0]
        cases.append((n,) + getattr(g, n)())
    d = c.workspace('w', [])
    env = {'CARGO_TARGET_DIR': os.path.join(d, 'target'), 'CARGO_TERM_COLOR': 'never'}
    t = time.time()
    rc, out, err = sh(['cargo', 'build', '--offline', '--bins', '--message-format=json'], cwd=d, env=env, timeout=800)
    lib = None
    for l in out.decode('utf8', 'replace').splitlines():
        m = json.loads(l) if l.startswith('{') else {}
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'nom_derive':
            lib = [f for f in m['filenames'] if f.endswith('.rlib')][0]
    if rc != 0 or not lib:
        raise NoAnswer('the library itself does not build:\n' + err.decode('utf8', 'replace')[-3000:])
    c.phases['build'] = round(time.time() - t, 1)
    cd = os.path.join(c.dir, 'cases')
    os.makedirs(cd, exist_ok=True)
    for f in os.listdir(cd):
        os.unlink(os.path.join(cd, f))

    def rustc(name, text):
        p = os.path.join(cd, name + '.rs')
        write(p, text)
        cmd = ['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'case', '--emit=metadata', '-o', os.path.join(cd, name + '.rmeta'), '--error-format=json',
               '-L', 'dependency=' + os.path.join(d, 'target', 'debug', 'deps'), '--extern', 'nom_derive=' + lib, p]
        rc, o, e = sh(cmd, timeout=120)
        for x in (p, p[:-3] + '.rmeta'):
            if os.path.exists(x):
                os.unlink(x)
        errs = []
        for l in e.decode('utf8', 'replace').splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('level') == 'error' and m.get('spans'):
                    errs.append(m)
        return rc, errs, e.decode('utf8', 'replace')

    # the corrected definitions: many in one crate, every error is assigned to its definition by line
    t = time.time()
    chunks = [list(range(k, min(k + 60, len(cases)))) for k in range(0, len(cases), 60)]

    def goods(args):
        n, idx = args
        bad, rounds = {}, 0
        idx = list(idx)
        while idx:
            text, at = PRELUDE, []
            for k in idx:
                start = text.count('\n') + 1
                text += 'pub mod m%d {\nuse super::*;\n%s}\n' % (k, cases[k][1])
                at.append((start, text.count('\n'), k))
            rc, errs, raw = rustc('good%d' % n, text)
            if rc == 0:
                return bad, None
            if rc != 1 or not errs:
                return bad, 'rustc ended with %s on corrected definitions: %s' % (rc, raw[-800:])
            hit = set()
            for m in errs:
                for x in m['spans']:
                    while x.get('expansion'):
                        x = x['expansion']['span']
                    for a, b, k in at:
                        if a <= x['line_start'] <= b:
                            hit.add(k)
                            bad.setdefault(k, m['message'])
            if not hit:
                return bad, 'errors outside the definitions: ' + raw[-800:]
            idx = [k for k in idx if k not in hit]
            rounds += 1
        return bad, None

    with ThreadPoolExecutor(CORES) as ex:
        gres = list(ex.map(goods, enumerate(chunks)))
    ngood = len(cases)
    failed = {}
    for b, note in gres:
        failed.update(b)
        if note:
            c.notes.append(note)
    for k, msg in failed.items():
        c.violation('rejected', {'what': 'the corrected definition does not compile', 'fault': cases[k][0], 'definitions': [cases[k][1]], 'note': msg, 'bad': cases[k][2]})
    c.phases['corrected definitions'] = round(time.time() - t, 1)
    t = time.time()

    def bad(k):
        return (k,) + rustc('bad%d' % k, PRELUDE + cases[k][2])
    with ThreadPoolExecutor(CORES) as ex:
        bres = list(ex.map(bad, range(len(cases))))
    first = {}
    msgs = set()
    for k, rc, errs, raw in bres:
        kind, good, b, shape = cases[k]
        c.features['%s/%s' % (kind[2:], shape)] = c.features.get('%s/%s' % (kind[2:], shape), 0) + 1
        if rc == 1 and errs:
            m = re.sub(r'`[^`]*`', '`..`', errs[0]['message'])
            msgs.add(m)
            key = 'rejected: ' + kind[2:]
            c.cov.setdefault('classes', {})[key] = c.cov.setdefault('classes', {}).get(key, 0) + 1
            if kind not in first:
                first[kind] = 1
                c.samples.append({'fault': kind[2:], 'definition': b, 'rustc': errs[0]['message']})
        elif rc == 0:
            c.violation('accepted', {'what': 'a contradictory or misplaced attribute compiles', 'fault': kind[2:], 'definitions': [b], 'note': 'fault %s' % kind[2:], 'corrected': good})
        elif rc == 101 and not errs:
            c.notes.append('compiler panicked: ' + raw[-500:])
        elif rc == 1:
            c.notes.append('no located error: ' + raw[-500:])
        else:
            c.notes.append('rustc ended with %s' % rc)
    c.phases['faulty definitions'] = round(time.time() - t, 1)
    c.cov['evaluations'] = len(cases) + ngood
    c.cov['distinct'] = len({x[2] for x in cases})
    c.cov['programs'] = len(cases)
    c.cov['monitors'] = {'faulty definition rejected by rustc': len(bres), 'corrected definition accepted by rustc': ngood - len(failed)}
    c.cov['different_messages'] = len(msgs)
    c.rule = ('A case is a pair of definitions: a faulty one (its own rustc run must end with a located error) and the same definition with only the fault corrected (must compile). '
              'Every attribute is put in every place it is not allowed in, every pair of byte orders is tried on fields, objects and derive macros, and further pairs are random in '
              'fault, field types, surrounding fields, attribute form, splitting and order. distinct counts different faulty definitions.')
    c.assumptions = ['A faulty definition rejected for any reason counts as rejected; that the fault is the reason is established by its corrected twin, which differs only in the fault.']
    return c.finish()


# ---------------------------------------------------------------- C18
def C18(c):
    """the same programs in no_std crates against three feature configurations of the library"""
    base = dict(p_top_set=6, p_field_set=6)
    none = dict(base, alloc=False, std=False)
    alloc = dict(base, alloc=True, std=False)
    n = 110
    rounds = 1 if c.quick else 8
    bases = 4 if c.quick else 16
    eds = itertools.cycle(['2021', '2015', '2024', '2018'])

    def edition(s):
        s.edition = next(eds)
        c.features['crate of edition ' + s.edition] = c.features.get('crate of edition ' + s.edition, 0) + 1
        return s

    def progs(tag, ps, start, lib):
        out = []
        for k, p in enumerate(ps):
            g, cr = build_crate(seed_of(c, start + k), p, n)
            cr.head = HEAD_NOSTD
            for f, v in g.features.items():
                c.features[f] = c.features.get(f, 0) + v
            out.append(edition(Shard('%s%d' % (tag, k), cr, ['--bases', str(bases), '--mons', 'watch'])))
        cr = lib_crate(seed_of(c, start + 90), lib)
        cr.head = HEAD_NOSTD
        out.append(edition(Shard(tag + 'lib', cr, ['--bases', str(2 * bases), '--mons', 'watch'])))
        return out
    for rnd in range(rounds):
        s = 100 * rnd
        en = pb(none, objs=dict(struct=50, enum=35, fieldless=15))
        an = pb(alloc, objs=dict(struct=50, enum=35, fieldless=15), types=dict(DEFAULT['types'], arr=16))
        arr = pb(none, types=dict(DEFAULT['types'], arr=60, opt=20))
        N = progs('n', [prof(**none), en, arr], s, False)
        A = progs('a', [prof(**alloc), an], s + 10, True)
        S = progs('d', [prof(**base), prof(generic_errors=60, **alloc)], s + 20, True)
        tot = {}
        for name, feats, shards, noalloc, default in (
                ('std', '"std"', N + A + S, False, True), ('alloc', '"alloc"', N + A + S[1:], False, False), ('none', '', N, True, False)):
            extra = ['--noalloc', '1'] if noalloc else []
            sel = [x for x in shards]
            for x in sel:
                x.runner = [y for y in x.runner if y not in ('--noalloc', '1')] if not noalloc else x.runner
            before = c.cov.get('evaluations', 0)
            exes = c.build(name, sel, features=feats, repo_default=default, config=None if name == 'std' else 'with only alloc' if name == 'alloc' else 'without features')
            if c.violations:
                break
            c.run(exes, sel, extra, label=' ' + name)
            tot[name] = c.cov.get('evaluations', 0) - before
            for f, v in tot.items():
                c.cov.setdefault('evaluations_by_configuration', {})[f] = v
            if c.violations:
                break
        if c.violations:
            break
    c.rule = RULE + (' All definitions are part of #![no_std] crates (names of std do not resolve in them) and are compiled and run against the library with default features, with only alloc and '
                     'with no features; the same programs and inputs are used in each configuration that supports them and must give the outcomes of one reference.')
    c.assumptions = ASSUME + ['Without alloc the reference follows the documented difference: a truncated array is Incomplete.']
    return c.finish()


ALL = {'C17': C17, 'C18': C18}
