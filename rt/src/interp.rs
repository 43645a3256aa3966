//! Reference interpreter: the documented meaning of a definition, written without nom combinators.
//! It also has a generative mode, in which missing input is invented so that parsing gets deep.
use crate::probes::EV_PROBE;
use crate::spec::*;
use crate::val::{Ev, Need, Out, Val, MAX_EVENTS};
use nom_derive::nom::error::ErrorKind as K;
use std::collections::HashMap;

/// predictions are for a big-endian machine
pub static BIG_HOST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn p(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Er {
    Err(Option<K>, usize),
    Fail(K, usize),
    Inc(Need),
    Stop,
}
type R<T> = Result<T, Er>;

pub struct Gen {
    pub rng: Rng,
    pub frozen: bool,
    pub cap: usize,
}

pub struct It<'d> {
    pub defs: &'d Defs,
    pub buf: Vec<u8>,
    pub ev: Vec<Ev>,
    pub steps: u64,
    pub limit: u64,
    pub hash: u64,
    pub cov: Option<&'d mut HashMap<&'static str, u64>>,
    pub gen: Option<Gen>,
    pub no_alloc: bool,
    pub elem_calls: u64,
    /// LengthCount attributes reached (by address) and the size bound of one element: nom reserves for at most 65536 of them
    pub reserve: HashMap<usize, u64>,
    /// reports of Debug: field, position, error
    pub dumps: Vec<(String, usize, Er)>,
}

struct Cx {
    orig: usize,
    off: usize,
    env: Vec<(String, Val)>,
    dynle: Option<bool>,
    selfv: Option<Val>,
    base_m: u8,
    targs: Vec<Ty>,
    /// written name of the field being parsed
    field: String,
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17)
}

impl<'d> It<'d> {
    pub fn new(defs: &'d Defs, buf: Vec<u8>) -> It<'d> {
        It { defs, buf, ev: vec![], steps: 0, limit: 40_000, hash: 0xcbf29ce484222325, cov: None, gen: None, no_alloc: false, elem_calls: 0, reserve: HashMap::new(), dumps: vec![] }
    }
    fn hit(&mut self, k: &'static str) {
        let mut h = self.hash;
        for b in k.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = h.rotate_left(7);
        if let Some(c) = self.cov.as_mut() {
            *c.entry(k).or_insert(0) += 1;
        }
    }
    fn hit_r<T>(&mut self, ok: &'static str, bad: &'static str, r: &R<T>) {
        if r.is_ok() {
            self.hit(ok)
        } else {
            self.hit(bad)
        }
    }
    fn event(&mut self, id: u32, v: i64) {
        if self.ev.len() < MAX_EVENTS {
            self.ev.push(Ev(id, v));
        }
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit {
            Err(Er::Stop)
        } else {
            Ok(())
        }
    }
    /// are n bytes available at off? In generative mode may invent them; returns (available, invented)
    fn need(&mut self, off: usize, n: usize) -> (bool, bool) {
        let len = self.buf.len();
        if n <= len.saturating_sub(off) {
            return (true, false);
        }
        if let Some(g) = self.gen.as_mut() {
            if !g.frozen && n < g.cap && off + n <= g.cap {
                let style = g.rng.below(4);
                while self.buf.len() < off + n {
                    let b = match style {
                        0 => g.rng.below(6) as u8,
                        1 => b'a' + g.rng.below(26) as u8,
                        _ => g.rng.next() as u8,
                    };
                    self.buf.push(b);
                }
                return (true, len <= off);
            }
        }
        (false, false)
    }
    fn missing(&self, off: usize, n: usize) -> Er {
        let have = self.buf.len() - off;
        Er::Inc(Need::Size(n - have))
    }
    fn bytes(&mut self, off: usize, n: usize) -> R<usize> {
        self.step()?;
        if self.need(off, n).0 {
            Ok(off + n)
        } else {
            Err(self.missing(off, n))
        }
    }
    fn put_int(&mut self, off: usize, w: usize, v: u128, le: bool) {
        for k in 0..w {
            let sh = if le { 8 * k } else { 8 * (w - 1 - k) };
            self.buf[off + k] = (v >> sh) as u8;
        }
    }
    fn get_uint(&self, off: usize, w: usize, le: bool) -> u128 {
        let mut v: u128 = 0;
        for k in 0..w {
            let b = if le { self.buf[off + w - 1 - k] } else { self.buf[off + k] };
            v = v << 8 | b as u128;
        }
        v
    }
    fn sign(v: u128, w: usize, signed: bool) -> i128 {
        if signed && w < 16 {
            let sh = 128 - 8 * w as u32;
            ((v << sh) as i128) >> sh
        } else {
            v as i128
        }
    }
    fn int(&mut self, off: usize, w: usize, signed: bool, le: bool) -> R<(i128, usize)> {
        self.step()?;
        let (ok, fresh) = self.need(off, w);
        if !ok {
            return Err(self.missing(off, w));
        }
        if fresh {
            let g = self.gen.as_mut().unwrap();
            let v = match g.rng.below(20) {
                0..=11 => Some(g.rng.below(8) as u128),
                12 => Some(u128::MAX),
                13 => Some(1u128 << (8 * w - 1)),
                14 => Some((1u128 << (8 * w - 1)) - 1),
                15 => Some(g.rng.below(300) as u128),
                _ => None,
            };
            if let Some(v) = v {
                self.put_int(off, w, v, le);
            }
        }
        let v = self.get_uint(off, w, le);
        Ok((Self::sign(v, w, signed), off + w))
    }

    // ---------- types ----------
    fn sub(t: &Ty, targs: &[Ty]) -> Ty {
        match t {
            Ty::Param(k) => targs[*k].clone(),
            Ty::Opt(x) => Ty::Opt(Box::new(Self::sub(x, targs))),
            Ty::Vec(x) => Ty::Vec(Box::new(Self::sub(x, targs))),
            Ty::Arr(n, x) => Ty::Arr(*n, Box::new(Self::sub(x, targs))),
            Ty::Pair(a, b) => Ty::Pair(Box::new(Self::sub(a, targs)), Box::new(Self::sub(b, targs))),
            Ty::Ld(x) => Ty::Ld(Box::new(Self::sub(x, targs))),
            Ty::Def(n, a) => Ty::Def(n.clone(), a.iter().map(|x| Self::sub(x, targs)).collect()),
            t => t.clone(),
        }
    }
    /// m: 0 parse, 1 parse_be, 2 parse_le
    pub fn ty(&mut self, t: &Ty, m: u8, off: usize) -> R<(Val, usize)> {
        self.step()?;
        let le = m == 2;
        match t {
            Ty::Int(w, s) => {
                let r = self.int(off, *w, *s, le).map(|(v, o)| (Val::I(v), o));
                self.hit_r(if le { "int.le/ok" } else { "int.be/ok" }, "int/short", &r);
                r
            }
            Ty::Float(w) => {
                let r = self.bytes(off, *w).map(|o| (Val::F(self.get_uint(off, *w, le) as u64), o));
                self.hit_r("float/ok", "float/short", &r);
                r
            }
            Ty::Str => {
                let (n, o) = self.int(off, 4, false, false)?;
                let n = n as usize;
                let (ok, fresh) = self.need(o, n);
                if !ok {
                    self.hit("string/short");
                    return Err(self.missing(o, n));
                }
                if fresh {
                    let g = self.gen.as_mut().unwrap();
                    if g.rng.p(80) {
                        let mut s = String::new();
                        while s.len() < n {
                            let c = match g.rng.below(6) {
                                0 => 'é',
                                1 => '✓',
                                2 => '𝛌',
                                _ => 'a',
                            };
                            s.push(if s.len() + c.len_utf8() <= n { c } else { 'b' });
                        }
                        if g.rng.p(40) {
                            // characters which careless handling of text drops or changes
                            let c = ['\0', '\u{feff}', ' ', '\n', '\r', '\t', '\u{a0}', '\u{fffd}', '\u{10ffff}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '"', '\\', 'A', '\u{301}', '\u{2028}'][g.rng.below(18) as usize];
                            let k = g.rng.below(5);
                            if c.len_utf8() <= n {
                                let room = n - c.len_utf8();
                                let a = match k {
                                    0 | 1 => 0,
                                    2 | 3 => room,
                                    _ => g.rng.below(room as u64 + 1) as usize,
                                };
                                s = "ab".repeat(n)[..a].to_string();
                                s.push(c);
                                s.push_str(&"cd".repeat(n)[..room - a]);
                            }
                        }
                        self.buf[o..o + n].copy_from_slice(s.as_bytes());
                    }
                }
                match std::str::from_utf8(&self.buf[o..o + n]) {
                    Ok(s) => {
                        let s = s.to_string();
                        self.hit("string/ok");
                        Ok((Val::Str(s), o + n))
                    }
                    Err(_) => {
                        self.hit("string/utf8err");
                        Err(Er::Err(Some(K::MapRes), o))
                    }
                }
            }
            Ty::Opt(x) => {
                if let Some(g) = self.gen.as_mut() {
                    if g.rng.p(10) {
                        g.frozen = true
                    }
                }
                match self.complete(off, |s| s.ty(x, m, off)) {
                    Ok((v, o)) => {
                        self.hit("opt/some");
                        Ok((Val::Some(Box::new(v)), o))
                    }
                    Err(Er::Err(..)) => {
                        self.hit("opt/none");
                        Ok((Val::None, off))
                    }
                    Err(e) => {
                        self.hit("opt/fatal");
                        Err(e)
                    }
                }
            }
            Ty::Vec(x) => {
                let mut o = off;
                let mut v = vec![];
                let goal = self.gen.as_mut().map(|g| g.rng.below(5)).unwrap_or(u64::MAX);
                loop {
                    if v.len() as u64 >= goal {
                        if let Some(g) = self.gen.as_mut() {
                            g.frozen = true
                        }
                    }
                    self.elem_calls += 1;
                    match self.complete(o, |s| s.ty(x, m, o)) {
                        Ok((_, o2)) if o2 == o => {
                            self.hit("vec/noprogress");
                            return Err(Er::Err(Some(K::Many0), o));
                        }
                        Ok((y, o2)) => {
                            v.push(y);
                            o = o2
                        }
                        Err(Er::Err(..)) => {
                            self.hit(if v.is_empty() { "vec/empty" } else { "vec/some" });
                            return Ok((Val::List(v), o));
                        }
                        Err(e) => {
                            self.hit("vec/fatal");
                            return Err(e);
                        }
                    }
                }
            }
            Ty::Arr(n, x) => {
                let mut o = off;
                let mut v = vec![];
                for _ in 0..*n {
                    let r = if self.no_alloc { self.ty(x, m, o) } else { self.complete(o, |s| s.ty(x, m, o)) };
                    match r {
                        Ok((_, o2)) if o2 == o && !self.no_alloc => {
                            self.hit("array/noprogress");
                            return Err(Er::Err(Some(K::ManyMN), o));
                        }
                        Ok((y, o2)) => {
                            v.push(y);
                            o = o2
                        }
                        Err(e) => {
                            self.hit("array/err");
                            return Err(e);
                        }
                    }
                }
                self.hit("array/ok");
                Ok((Val::List(v), o))
            }
            Ty::Pair(a, b) => {
                let (x, o) = self.ty(a, m, off)?;
                let (y, o) = self.ty(b, m, o)?;
                self.hit("pair/ok");
                Ok((Val::St(vec![x, y]), o))
            }
            Ty::Ld(l) => {
                let (n, o) = match &**l {
                    Ty::Int(w, s) => self.int(off, *w, *s, le)?,
                    Ty::Probe(7) => {
                        self.hit("lengthdata/handwritten");
                        match self.ty(l, m, off)? {
                            (Val::St(v), o) => match &v[..] {
                                [Val::I(n)] => (*n, o),
                                _ => panic!("PL"),
                            },
                            _ => panic!("PL"),
                        }
                    }
                    _ => panic!("LengthData length type"),
                };
                let n = n as u64 as usize;
                let r = self.bytes(o, n).map(|e| (Val::St(vec![Val::Bytes(o, n)]), e));
                self.hit_r("lengthdata/ok", "lengthdata/short", &r);
                r
            }
            Ty::Def(n, a) => {
                self.hit("def");
                self.def(n, m, off, vec![], a)
            }
            Ty::Probe(k) => {
                self.elem_calls += 1;
                self.probe(*k, m, off)
            }
            Ty::Phantom => Ok((Val::Phantom, off)),
            Ty::Unit => Ok((Val::Unit, off)),
            Ty::Param(_) => panic!("unresolved parameter"),
        }
    }
    fn call_ev(&mut self, k: u32, m: u8, off: usize) {
        self.event(EV_PROBE + k, (m as i64) << 40 | off as i64);
    }
    fn probe(&mut self, k: u8, m: u8, off: usize) -> R<(Val, usize)> {
        self.hit("probe");
        match k {
            0 => {
                self.call_ev(0, m, off);
                let o = self.bytes(off, 2)?;
                let v = self.get_uint(off, 2, m == 2);
                Ok((Val::St(vec![Val::I(m as i128), Val::I(v as i128)]), o))
            }
            1 => {
                self.call_ev(1, 0, off);
                let o = self.bytes(off, 1)?;
                Ok((Val::St(vec![Val::I(self.buf[off] as i128)]), o))
            }
            2 => {
                let m = if m == 2 { 2 } else { 0 };
                self.call_ev(2, m, off);
                let (n, o) = self.int(off, 1, false, false)?;
                let e = self.bytes(o, n as usize)?;
                Ok((Val::St(vec![Val::I(m as i128), Val::Bytes(o, n as usize)]), e))
            }
            3 => {
                self.call_ev(3, m, off);
                self.step()?;
                let (ok, fresh) = self.need(off, 1);
                if !ok {
                    return Err(self.missing(off, 1));
                }
                if fresh {
                    let g = self.gen.as_mut().unwrap();
                    match g.rng.below(16) {
                        0 => self.buf[off] = 0xEE,
                        1 => self.buf[off] = 0xDD,
                        2 => self.buf[off] = 0xCC,
                        _ => (),
                    }
                }
                match self.buf[off] {
                    0xEE => Err(Er::Fail(K::Fail, off)),
                    0xDD => Err(Er::Err(Some(K::Not), off)),
                    0xCC => Err(Er::Inc(Need::Unknown)),
                    v => Ok((Val::St(vec![Val::I(m as i128), Val::I(v as i128)]), off + 1)),
                }
            }
            4 => {
                self.step()?;
                self.call_ev(4, 0, off);
                Ok((Val::St(vec![]), off))
            }
            5 => {
                let m = if m == 1 { 1 } else { 0 };
                self.call_ev(5, m, off);
                let o = self.bytes(off, 3)?;
                Ok((Val::St(vec![Val::I(m as i128), Val::I(self.get_uint(off, 3, false) as i128)]), o))
            }
            7 => {
                self.call_ev(7, m, off);
                let (n, o) = self.int(off, 1, false, false)?;
                Ok((Val::St(vec![Val::I(n)]), o))
            }
            8 => {
                self.call_ev(8, m, off);
                let o = self.bytes(off, 1)?;
                Ok((Val::St(vec![]), o))
            }
            6 => {
                self.call_ev(6, m, off);
                let o = self.bytes(off, 2)?;
                let v = self.get_uint(off, 2, m == 2);
                Ok((Val::St(vec![Val::I(m as i128), Val::I(v as i128)]), o))
            }
            _ => panic!("probe {}", k),
        }
    }
    fn complete<T>(&mut self, off: usize, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        match f(self) {
            Err(Er::Inc(_)) => {
                self.hit("complete/converted");
                Err(Er::Err(Some(K::Complete), off))
            }
            r => r,
        }
    }
    /// at least size_of the Rust type
    fn size_bound(&self, t: &Ty, targs: &[Ty]) -> u64 {
        match t {
            Ty::Int(w, _) | Ty::Float(w) => (*w as u64).max(16),
            Ty::Opt(x) => 16 + self.size_bound(x, targs),
            Ty::Arr(n, x) => 16 + *n as u64 * self.size_bound(x, targs),
            Ty::Pair(x, y) => 16 + self.size_bound(x, targs) + self.size_bound(y, targs),
            Ty::Param(k) => targs.get(*k).map(|t| self.size_bound(t, &[])).unwrap_or(64),
            Ty::Def(n, a) => {
                let a: Vec<Ty> = a.iter().map(|t| Self::sub(t, targs)).collect();
                let fs: Vec<&Field> = match &self.defs.0[n].body {
                    Body::Struct(f) => f.iter().collect(),
                    Body::Enum(_, v) => v.iter().flat_map(|v| v.fields.iter()).collect(),
                    Body::Fieldless(..) => vec![],
                };
                32 + fs.iter().map(|f| 8 + self.size_bound(&f.ty, &a)).sum::<u64>()
            }
            _ => 32,
        }
    }
    fn default_val(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(..) => Val::I(0),
            Ty::Float(_) => Val::F(0),
            Ty::Str => Val::Str(String::new()),
            Ty::Opt(_) => Val::None,
            Ty::Vec(_) => Val::List(vec![]),
            Ty::Arr(n, x) => Val::List(vec![self.default_val(x); *n]),
            Ty::Phantom => Val::Phantom,
            Ty::Unit => Val::Unit,
            Ty::Probe(0) | Ty::Probe(3) | Ty::Probe(6) => Val::St(vec![Val::I(0), Val::I(0)]),
            Ty::Probe(1) => Val::St(vec![Val::I(0)]),
            Ty::Probe(4) | Ty::Probe(8) => Val::St(vec![]),
            Ty::Probe(5) => Val::St(vec![Val::I(9), Val::I(4242)]),
            t => panic!("no default for {:?}", t),
        }
    }

    // ---------- expressions ----------
    fn toi(v: &Val) -> i128 {
        match v {
            Val::I(v) => *v as i64 as i128,
            Val::List(l) => l.len() as i128,
            Val::Bytes(_, n) => *n as i128,
            Val::Str(s) => s.len() as i128,
            Val::None => 0,
            Val::Some(_) => 1,
            v => panic!("not a number: {:?}", v),
        }
    }
    fn ex(&mut self, e: &E, cx: &Cx) -> i128 {
        match e {
            E::Lit(n) => *n,
            E::Var(n) | E::Len(n) => Self::toi(&cx.env.iter().rev().find(|(k, _)| k == n).unwrap_or_else(|| panic!("unbound {}", n)).1),
            E::UVar(n) => match &cx.env.iter().rev().find(|(k, _)| k == n).unwrap_or_else(|| panic!("unbound {}", n)).1 {
                Val::I(v) => *v,
                v => panic!("not an integer: {:?}", v),
            },
            E::Min(a, b) => {
                let (x, y) = (self.ex(a, cx), self.ex(b, cx));
                x.min(y)
            }
            E::SelfV => Self::toi(cx.selfv.as_ref().expect("self value")),
            E::ILen => {
                if let Some(g) = self.gen.as_mut() {
                    g.frozen = true;
                }
                (self.buf.len() - cx.off) as i128
            }
            E::OLen => {
                if let Some(g) = self.gen.as_mut() {
                    g.frozen = true;
                }
                (self.buf.len() - cx.orig) as i128
            }
            E::Native => !BIG_HOST.load(std::sync::atomic::Ordering::Relaxed) as i128,
            E::Add(a, b) => self.ex(a, cx) + self.ex(b, cx),
            E::Sub(a, b) => self.ex(a, cx) - self.ex(b, cx),
            E::Mul(a, b) => self.ex(a, cx) * self.ex(b, cx),
            E::Rem(a, b) => {
                let (x, y) = (self.ex(a, cx), self.ex(b, cx));
                x.rem_euclid(y)
            }
            E::Eq(a, b) => (self.ex(a, cx) == self.ex(b, cx)) as i128,
            E::Gt(a, b) => (self.ex(a, cx) > self.ex(b, cx)) as i128,
            E::And(a, b) => (self.ex(a, cx) != 0 && self.ex(b, cx) != 0) as i128,
            E::Or(a, b) => (self.ex(a, cx) != 0 || self.ex(b, cx) != 0) as i128,
            E::Not(a) => (self.ex(a, cx) == 0) as i128,
            E::Evx(id, a) => {
                let v = self.ex(a, cx);
                self.event(*id, v as i64);
                v
            }
        }
    }
    fn usz(v: i128) -> usize {
        v as i64 as usize
    }

    // ---------- user parsers ----------
    fn user(&mut self, p: &P, off: usize, cx: &Cx) -> R<(Val, usize)> {
        self.hit("userparser");
        match p {
            P::Ty(t, m) => {
                let t = Self::sub(t, &cx.targs);
                self.ty(&t, *m, off)
            }
            P::Num(w, s, le, complete) => match self.int(off, *w, *s, *le) {
                Ok((v, o)) => Ok((Val::I(v), o)),
                Err(Er::Inc(_)) if *complete => Err(Er::Err(Some(K::Eof), off)),
                Err(e) => Err(e),
            },
            P::Take(n) => self.bytes(off, *n).map(|o| (Val::Bytes(off, *n), o)),
            P::Call(d, m, args) => {
                let a: Vec<i128> = args.iter().map(|e| self.ex(e, cx)).collect();
                self.def(d, *m, off, a, &[])
            }
            P::Custom(k) => {
                self.call_ev(*k as u32, 0, off);
                match k {
                    20 => self.int(off, 1, false, false).map(|(v, o)| (Val::I(v), o)),
                    21 => self.bytes(off, 2).map(|o| (Val::Bytes(off, 2), o)),
                    22 => {
                        let mut v: i128 = 0;
                        let mut n = 0;
                        loop {
                            let fresh = self.need(off + n, 1).1;
                            self.bytes(off + n, 1)?;
                            if fresh && self.gen.as_mut().unwrap().rng.p(70) {
                                self.buf[off + n] &= 0x07;
                            }
                            let b = self.buf[off + n];
                            v |= ((b & 0x7f) as i128) << (7 * n);
                            n += 1;
                            if b & 0x80 == 0 {
                                return Ok((Val::I(v), off + n));
                            }
                            if n == 4 {
                                return Err(Er::Err(Some(K::TooLarge), off));
                            }
                        }
                    }
                    23 => Err(Er::Fail(K::Fail, off)),
                    24 => Err(Er::Err(Some(K::Not), off)),
                    25 => {
                        if let Some(g) = self.gen.as_mut() {
                            g.frozen = true
                        }
                        let n = self.buf.len();
                        Ok((Val::Bytes(off, n - off), n))
                    }
                    26 => self.bytes(off, 1).map(|o| (Val::Unit, o)),
                    _ => panic!("custom {}", k),
                }
            }
            P::Cond(e, p) => {
                if self.ex(e, cx) != 0 {
                    let (v, o) = self.user(p, off, cx)?;
                    Ok((Val::Some(Box::new(v)), o))
                } else {
                    Ok((Val::None, off))
                }
            }
            P::Pair(a, b) => {
                let (x, o) = self.user(a, off, cx)?;
                let (y, o) = self.user(b, o, cx)?;
                Ok((Val::St(vec![x, y]), o))
            }
        }
    }

    // ---------- attribute chain ----------
    fn chain(&mut self, ch: &[Ch], t: &Ty, m: u8, off: usize, cx: &mut Cx) -> R<(Val, usize)> {
        self.step()?;
        let Some((c, rest)) = ch.split_first() else {
            return if *t == Ty::Phantom { Ok((Val::Phantom, off)) } else { self.ty(t, m, off) };
        };
        match c {
            Ch::Tag(tag) => {
                let (ok, fresh) = self.need(off, tag.len());
                if fresh && self.gen.as_mut().unwrap().rng.p(90) {
                    self.buf[off..off + tag.len()].copy_from_slice(tag);
                }
                let have = &self.buf[off..];
                let n = have.len().min(tag.len());
                if have[..n] != tag[..n] {
                    self.hit("tag/mismatch");
                    return Err(Er::Err(Some(K::Tag), off));
                }
                if !ok {
                    self.hit("tag/short");
                    return Err(self.missing(off, tag.len()));
                }
                self.hit("tag/ok");
                Ok((Val::Bytes(off, n), off + n))
            }
            Ch::Take(e) => {
                let n = Self::usz(self.ex(e, cx));
                let r = self.bytes(off, n).map(|o| (Val::Bytes(off, n), o));
                self.hit_r("take/ok", "take/short", &r);
                r
            }
            Ch::Value(e, vt) => {
                self.hit("value");
                let v = self.ex(e, cx);
                let v = match vt {
                    Ty::Int(w, s) => Self::sign(if *w < 16 { v as u128 & ((1u128 << (8 * *w)) - 1) } else { v as u128 }, *w, *s),
                    _ => panic!("value type"),
                };
                Ok((Val::I(v), off))
            }
            Ch::Parse(p) => self.user(p, off, cx),
            Ch::Ignore => {
                self.hit("ignore");
                Ok((self.default_val(t), off))
            }
            Ch::Complete => {
                // written out: chain() needs cx mutably
                match self.chain(rest, t, m, off, cx) {
                    Err(Er::Inc(_)) => {
                        self.hit("complete/converted");
                        Err(Er::Err(Some(K::Complete), off))
                    }
                    r => r,
                }
            }
            Ch::Debug => {
                self.hit("debug");
                let r = self.chain(rest, t, m, off, cx);
                self.dump(&cx.field, off, &r);
                r
            }
            Ch::Cond(e) => {
                let Ty::Opt(x) = t else { panic!("Cond on {:?}", t) };
                if self.ex(e, cx) != 0 {
                    self.hit("cond/true");
                    let (v, o) = self.chain(rest, x, m, off, cx)?;
                    Ok((Val::Some(Box::new(v)), o))
                } else {
                    self.hit("cond/false");
                    Ok((Val::None, off))
                }
            }
            Ch::Count(e) => {
                let Ty::Vec(x) = t else { panic!("Count on {:?}", t) };
                let n = Self::usz(self.ex(e, cx));
                self.repeat(n, rest, x, m, off, cx)
            }
            Ch::LCount(p) => {
                let Ty::Vec(x) = t else { panic!("LengthCount on {:?}", t) };
                let (n, o) = self.user(p, off, cx)?;
                let n = match n {
                    Val::I(n) => n as u64 as usize,
                    v => panic!("length {:?}", v),
                };
                self.hit("lcount");
                let sz = self.size_bound(x, &cx.targs);
                self.reserve.insert(p as *const P as usize, sz);
                self.repeat(n, rest, x, m, o, cx)
            }
            Ch::Into(k) => {
                let (v, o) = self.chain(rest, t, m, off, cx)?;
                self.hit("into");
                Ok((
                    match (k, v) {
                        (0, v) | (2, v) => v,
                        (1, Val::Bytes(a, n)) => Val::List(self.buf[a..a + n].iter().map(|b| Val::I(*b as i128)).collect()),
                        (k, v) => panic!("into {} {:?}", k, v),
                    },
                    o,
                ))
            }
            Ch::Map(k) => {
                let (v, o) = self.chain(rest, t, m, off, cx)?;
                self.hit("map");
                Ok((
                    match (k, v, t) {
                        (0, Val::I(v), Ty::Int(w, s)) => {
                            let u = (v as u128).wrapping_add(1);
                            Val::I(Self::sign(if *w < 16 { u & ((1u128 << (8 * *w)) - 1) } else { u }, *w, *s))
                        }
                        (1, Val::I(v), _) => Val::Str(v.to_string()),
                        (k, v, t) => panic!("map {} {:?} {:?}", k, v, t),
                    },
                    o,
                ))
            }
            Ch::Verify(e) => {
                let fresh = self.buf.len() <= off;
                let mut tries = if self.gen.is_some() && fresh { 6 } else { 1 };
                loop {
                    let evs = self.ev.len();
                    let (v, o) = self.chain(rest, t, m, off, cx)?;
                    let saved = cx.selfv.replace(v);
                    let ok = self.ex(e, cx) != 0;
                    let v = std::mem::replace(&mut cx.selfv, saved).unwrap();
                    if ok {
                        self.hit("verify/ok");
                        return Ok((v, o));
                    }
                    tries -= 1;
                    let frozen = self.gen.as_ref().map(|g| g.frozen).unwrap_or(true);
                    if tries == 0 || frozen {
                        self.hit("verify/fail");
                        return Err(Er::Err(Some(K::Verify), off));
                    }
                    self.buf.truncate(off);
                    self.ev.truncate(evs);
                }
            }
        }
    }
    fn repeat(&mut self, n: usize, rest: &[Ch], x: &Ty, m: u8, off: usize, cx: &mut Cx) -> R<(Val, usize)> {
        let mut v = vec![];
        let mut o = off;
        for _ in 0..n {
            self.elem_calls += 1;
            match self.chain(rest, x, m, o, cx) {
                Ok((y, o2)) => {
                    v.push(y);
                    o = o2;
                }
                Err(e) => {
                    self.hit("count/err");
                    return Err(e);
                }
            }
        }
        self.hit(if n == 0 { "count/zero" } else { "count/ok" });
        Ok((Val::List(v), o))
    }

    // ---------- directives ----------
    fn dirs(&mut self, ds: &[Dir], cx: &mut Cx) -> R<()> {
        for d in ds {
            self.step()?;
            match d {
                Dir::Ev(id, e) => {
                    let v = self.ex(e, cx);
                    self.event(*id, v as i64);
                    self.hit("exec");
                }
                Dir::Let(n, e) => {
                    let v = self.ex(e, cx);
                    cx.env.push((n.clone(), Val::I(v)));
                    self.hit("let");
                }
                Dir::Set(n, e) => {
                    let v = self.ex(e, cx);
                    cx.env.iter_mut().rev().find(|(k, _)| k == n).expect("assigned variable").1 = Val::I(v);
                    self.hit("assign");
                }
                Dir::Read(n, p) => {
                    let (v, o) = self.user(p, cx.off, cx)?;
                    self.hit("exec/read");
                    cx.env.push((n.clone(), v));
                    cx.off = o;
                }
                Dir::Align(e) => {
                    let n = Self::usz(self.ex(e, cx));
                    if n == 0 {
                        self.hit("align/zero");
                        return Err(Er::Err(None, cx.off));
                    }
                    let pos = cx.off - cx.orig;
                    // least k with (pos + k) % n == 0
                    let r = pos % n;
                    let k = if r == 0 { 0 } else { n - r };
                    let r = self.bytes(cx.off, k);
                    self.hit_r(if k == 0 { "align/noop" } else { "align/ok" }, "align/short", &r);
                    cx.off = r?;
                }
                Dir::Skip(e) => {
                    let n = Self::usz(self.ex(e, cx));
                    let r = self.bytes(cx.off, n);
                    self.hit_r("skip/ok", if n > isize::MAX as usize { "skip/negative" } else { "skip/short" }, &r);
                    cx.off = r?;
                }
                Dir::Move(e) => {
                    let d = self.ex(e, cx) as i64 as i128;
                    let t = cx.off as i128 + d;
                    if t < cx.orig as i128 {
                        self.hit("move/before");
                        return Err(Er::Err(Some(K::TooLarge), cx.off));
                    }
                    self.hit(if d < 0 { "move/back" } else { "move/fwd" });
                    self.go(t, cx)?;
                }
                Dir::MoveAbs(e) => {
                    let n = Self::usz(self.ex(e, cx));
                    let to = cx.orig as u128 + n as u128;
                    self.hit(if n > isize::MAX as usize {
                        "moveabs/negative"
                    } else if to > self.buf.len() as u128 {
                        "moveabs/beyond"
                    } else if to < cx.off as u128 {
                        "moveabs/back"
                    } else {
                        "moveabs/fwd"
                    });
                    self.go(cx.orig as i128 + n as i128, cx)?;
                }
                Dir::ErrIf(e) => {
                    if self.ex(e, cx) != 0 {
                        self.hit("errorif/true");
                        return Err(Er::Err(Some(K::Verify), cx.off));
                    }
                    self.hit("errorif/false");
                }
                Dir::Exact => {
                    if let Some(g) = self.gen.as_mut() {
                        g.frozen = true
                    }
                    if cx.off != self.buf.len() {
                        self.hit("exact/fail");
                        return Err(Er::Err(Some(K::Verify), cx.off));
                    }
                    self.hit("exact/ok");
                }
                Dir::SetEndian(e) => {
                    let v = self.ex(e, cx) != 0;
                    self.hit(if v { "setendian/little" } else { "setendian/big" });
                    cx.dynle = Some(v);
                }
            }
        }
        Ok(())
    }
    fn go(&mut self, target: i128, cx: &mut Cx) -> R<()> {
        let len = self.buf.len() as i128;
        if target > len {
            let n = (target - len) as u128;
            if n < 4096 && self.need(self.buf.len(), n as usize).0 {
                cx.off = target as usize;
                return Ok(());
            }
            self.hit("move/beyond");
            return Err(Er::Inc(Need::Size(n as usize)));
        }
        cx.off = target as usize;
        Ok(())
    }

    // ---------- definitions ----------
    /// Debug reports a failure of what it wraps
    fn dump<T>(&mut self, field: &str, off: usize, r: &R<T>) {
        if let Err(e) = r {
            if *e != Er::Stop && self.dumps.len() < 10_000 {
                self.dumps.push((field.to_string(), off, e.clone()));
            }
        }
    }
    fn fields(&mut self, fields: &[Field], complete: bool, debug: bool, fixed: En, cx: &mut Cx) -> R<Vec<Val>> {
        let mut out = vec![];
        for f in fields {
            self.dirs(&f.pre, cx)?;
            let m = match f.endian {
                En::Be => 1,
                En::Le => 2,
                En::Unset => match cx.dynle {
                    Some(true) => 2,
                    Some(false) => 1,
                    None => match fixed {
                        En::Be => 1,
                        En::Le => 2,
                        En::Unset => cx.base_m,
                    },
                },
            };
            let t = Self::sub(&f.ty, &cx.targs);
            let off = cx.off;
            cx.field.clone_from(&f.written);
            let r = self.chain(&f.chain, &t, m, off, cx);
            let r = match r {
                Err(Er::Inc(_)) if complete => {
                    self.hit("topcomplete/converted");
                    Err(Er::Err(Some(K::Complete), off))
                }
                r => r,
            };
            if debug {
                self.hit("topdebug");
                self.dump(&f.written, off, &r);
            }
            let (v, o) = r?;
            cx.off = o;
            cx.env.push((f.name.clone(), v.clone()));
            out.push(v);
            self.dirs(&f.post, cx)?;
        }
        Ok(out)
    }
    pub fn def(&mut self, name: &str, m: u8, off: usize, args: Vec<i128>, targs: &[Ty]) -> R<(Val, usize)> {
        self.step()?;
        let defs = self.defs;
        let d = defs.0.get(name).unwrap_or_else(|| panic!("definition {}", name));
        let base_m = if m == 2 { 2 } else { 1 };
        let mut cx = Cx { orig: off, off, env: vec![], dynle: None, selfv: None, base_m, targs: targs.to_vec(), field: String::new() };
        let mut nsel = 0;
        if let Body::Enum(kind, _) = &d.body {
            nsel = if matches!(kind.as_str(), "tup" | "rec") { 2 } else { 1 };
        }
        for (k, n) in d.args.iter().enumerate() {
            cx.env.push((n.clone(), Val::I(args[nsel + k])));
        }
        self.dirs(&d.pre, &mut cx)?;
        let v = match &d.body {
            Body::Struct(fs) => {
                let v = self.fields(fs, d.complete, d.debug, d.endian, &mut cx)?;
                self.hit("struct/ok");
                Val::St(v)
            }
            Body::Fieldless(w, s, discs) => {
                let m = match d.endian {
                    En::Be => 1,
                    En::Le => 2,
                    En::Unset => base_m,
                };
                let at = cx.off;
                let (ok, fresh) = self.need(at, *w);
                let mut r = if ok { Ok(()) } else { Err(self.missing(at, *w)) };
                if d.complete && r.is_err() {
                    r = Err(Er::Err(Some(K::Complete), at));
                }
                if r.is_err() {
                    self.hit("fieldless/short");
                }
                r?;
                if fresh {
                    let g = self.gen.as_mut().unwrap();
                    if g.rng.p(80) {
                        let v = discs[g.rng.below(discs.len() as u64) as usize];
                        self.put_int(at, *w, v as u128, m == 2);
                    }
                }
                let v = Self::sign(self.get_uint(at, *w, m == 2), *w, *s);
                cx.off = at + *w;
                match discs.iter().position(|d| *d == v) {
                    Some(k) => {
                        self.hit("fieldless/ok");
                        Val::Var(k as u16, vec![])
                    }
                    None => {
                        self.hit("fieldless/nomatch");
                        return Err(Er::Err(Some(K::Switch), cx.orig));
                    }
                }
            }
            Body::Enum(kind, vars) => {
                let sel: Vec<i128> = args[..nsel].to_vec();
                let order: Vec<usize> =
                    (0..vars.len()).filter(|k| !is_default(&vars[*k])).chain((0..vars.len()).filter(|k| is_default(&vars[*k]))).collect();
                let mut chosen = None;
                // what a variant binds ends with its arm
                let outer = cx.env.len();
                for k in order {
                    let n = cx.env.len();
                    let sv = selval(kind, &sel);
                    if pmatch(&vars[k].pat, &sv, &mut cx.env) {
                        let g = match &vars[k].guard {
                            None => true,
                            Some(e) => self.ex(e, &cx) != 0,
                        };
                        if g {
                            chosen = Some(k);
                            break;
                        }
                    }
                    cx.env.truncate(n);
                }
                let Some(k) = chosen else {
                    self.hit("enum/nomatch");
                    return Err(Er::Err(Some(K::Switch), cx.off));
                };
                self.hit(if is_default(&vars[k]) { "enum/default" } else { "enum/match" });
                self.hash = mix(self.hash, k as u64 + 77);
                let v = &vars[k];
                let fv = if v.unit {
                    self.dirs(&v.pre, &mut cx)?;
                    if let Some(p) = &v.parse {
                        let at = cx.off;
                        let r = self.user(p, at, &cx);
                        cx.off = match r {
                            Err(Er::Inc(_)) if d.complete => return Err(Er::Err(Some(K::Complete), at)),
                            r => r?.1,
                        };
                    }
                    self.dirs(&v.post, &mut cx)?;
                    vec![]
                } else {
                    self.fields(&v.fields, d.complete, d.debug, d.endian, &mut cx)?
                };
                // what a variant binds ends with it, what it assigns to stays assigned
                cx.env.truncate(outer);
                Val::Var(k as u16, fv)
            }
        };
        // what has been built is in scope of top-level PostExec as `struct_def` / `enum_def`
        match (&d.body, &v) {
            (Body::Struct(fs), Val::St(vs)) => {
                for (f, v) in fs.iter().zip(vs) {
                    cx.env.push((format!("sd_{}", f.name), v.clone()));
                }
            }
            (_, Val::Var(k, _)) => cx.env.push(("enum_def".to_string(), Val::I(*k as i128))),
            _ => {}
        }
        self.dirs(&d.post, &mut cx)?;
        Ok((v, cx.off))
    }

    /// predicted outcome of a root type
    pub fn root(&mut self, t: &Root, m: u8, args: &[i64]) -> Out {
        let r = match t {
            Root::Ty(t) => self.ty(t, m, 0),
            Root::Call(d) => self.def(d, m, 0, args.iter().map(|a| *a as i128).collect(), &[]),
        };
        match r {
            Ok((val, off)) => Out::Ok { val, off, len: self.buf.len() - off },
            Err(Er::Err(kind, off)) => Out::Err { fail: false, kind, off: Some(off) },
            Err(Er::Fail(kind, off)) => Out::Err { fail: true, kind: Some(kind), off: Some(off) },
            Err(Er::Inc(n)) => Out::Inc(n),
            Err(Er::Stop) => Out::Skip,
        }
    }
}

#[derive(Debug, Clone)]
pub enum Root {
    Ty(Ty),
    /// selector enum or ExtraArgs type
    Call(String),
}

fn is_default(v: &Variant) -> bool {
    matches!(v.pat, Pat::Any) && v.guard.is_none()
}

#[derive(Debug, Clone)]
enum Sv {
    I(i128),
    Str(&'static str),
    Bytes(&'static [u8]),
    None,
    Some(Box<Sv>),
    Tup(Box<Sv>, Box<Sv>),
    Wrap(Box<Sv>),
}
fn selval(kind: &str, a: &[i128]) -> Sv {
    match kind {
        "opt" => {
            if a[0] < 0 {
                Sv::None
            } else {
                Sv::Some(Box::new(Sv::I(a[0] as u8 as i128)))
            }
        }
        "enum" => Sv::I(a[0].rem_euclid(3)),
        "str" => Sv::Str(match a[0].rem_euclid(4) {
            0 => "",
            1 => "a",
            2 => "bc",
            _ => "z",
        }),
        "bool" => Sv::I((a[0] & 1 == 1) as i128),
        "chr" => Sv::I(crate::probes::sel_chr(a[0] as i64) as i128),
        "bytes" => Sv::Bytes(crate::probes::sel_bytes(a[0] as i64)),
        "u128" => Sv::I(a[0] as u64 as i128),
        "usize" => Sv::I(a[0] as usize as i128),
        "i64" => Sv::I(a[0] as i64 as i128),
        "rec" | "tup" => Sv::Tup(Box::new(Sv::I(a[0] as u8 as i128)), Box::new(Sv::I(a[1] as u8 as i128))),
        "msg" => Sv::Wrap(Box::new(Sv::I(a[0] as u8 as i128))),
        "u8" => Sv::I(a[0] as u8 as i128),
        "i8" => Sv::I(a[0] as i8 as i128),
        "u16" => Sv::I(a[0] as u16 as i128),
        "i32" => Sv::I(a[0] as i32 as i128),
        "u64" => Sv::I(a[0] as u64 as i128),
        k => panic!("selector kind {}", k),
    }
}
fn pmatch(p: &Pat, v: &Sv, env: &mut Vec<(String, Val)>) -> bool {
    match (p, v) {
        (Pat::Any, _) => true,
        (Pat::Lit(a), Sv::I(b)) => a == b,
        (Pat::Str(a), Sv::Str(b)) => a == b,
        (Pat::Range(a, b), Sv::I(x)) => a <= x && x <= b,
        (Pat::Alt(l), v) => l.iter().any(|p| pmatch(p, v, env)),
        (Pat::Bind(n, q), v) => {
            if let Some(q) = q {
                if !pmatch(q, v, env) {
                    return false;
                }
            }
            if let Sv::I(x) = v {
                env.push((n.clone(), Val::I(*x)));
            }
            true
        }
        (Pat::Some(p), Sv::Some(v)) => pmatch(p, v, env),
        (Pat::None, Sv::None) => true,
        (Pat::Tup(a, b), Sv::Tup(x, y)) => pmatch(a, x, env) && pmatch(b, y, env),
        (Pat::Wrap(p), Sv::Wrap(v)) => pmatch(p, v, env),
        (Pat::Slice(a, open, z), Sv::Bytes(b)) => {
            (if *open { a.len() + z.len() <= b.len() } else { a.len() == b.len() })
                && a.iter().zip(b.iter()).all(|(p, x)| pmatch(p, &Sv::I(*x as i128), env))
                && z.iter().rev().zip(b.iter().rev()).all(|(p, x)| pmatch(p, &Sv::I(*x as i128), env))
        }
        _ => false,
    }
}
