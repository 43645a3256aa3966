//! Specification of a definition, read from s-expressions written by the generator.
use std::collections::HashMap;

#[derive(Debug, Clone)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
impl Sx {
    pub fn l(&self) -> &[Sx] {
        match self {
            Sx::L(v) => v,
            Sx::A(a) => panic!("list expected, got {}", a),
        }
    }
    pub fn a(&self) -> &str {
        match self {
            Sx::A(a) => a,
            Sx::L(_) => panic!("atom expected, got {:?}", self),
        }
    }
    pub fn n(&self) -> i128 {
        self.a().parse().unwrap_or_else(|_| panic!("number expected, got {}", self.a()))
    }
    pub fn head(&self) -> &str {
        match self {
            Sx::A(a) => a,
            Sx::L(v) => v[0].a(),
        }
    }
}
pub fn parse_all(s: &str) -> Vec<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut tok = String::new();
    let flush = |tok: &mut String, stack: &mut Vec<Vec<Sx>>| {
        if !tok.is_empty() {
            stack.last_mut().unwrap().push(Sx::A(std::mem::take(tok)));
        }
    };
    for c in s.chars() {
        match c {
            '(' => {
                flush(&mut tok, &mut stack);
                stack.push(vec![]);
            }
            ')' => {
                flush(&mut tok, &mut stack);
                let v = stack.pop().unwrap();
                stack.last_mut().unwrap().push(Sx::L(v));
            }
            c if c.is_whitespace() => flush(&mut tok, &mut stack),
            c => tok.push(c),
        }
    }
    flush(&mut tok, &mut stack);
    assert_eq!(stack.len(), 1, "unbalanced spec");
    stack.pop().unwrap()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(usize, bool),
    Float(usize),
    Str,
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Arr(usize, Box<Ty>),
    Pair(Box<Ty>, Box<Ty>),
    Ld(Box<Ty>),
    Def(String, Vec<Ty>),
    Param(usize),
    Probe(u8),
    Phantom,
    Unit,
}
pub fn ty(s: &Sx) -> Ty {
    match s {
        Sx::A(a) => match a.as_str() {
            "str" => Ty::Str,
            "phantom" => Ty::Phantom,
            "unit" => Ty::Unit,
            "f32" => Ty::Float(4),
            "f64" => Ty::Float(8),
            "usize" => Ty::Int(8, false),
            "PA" => Ty::Probe(0),
            "PB" => Ty::Probe(1),
            "PC" => Ty::Probe(2),
            "PF" => Ty::Probe(3),
            "PZ" => Ty::Probe(4),
            "PD" => Ty::Probe(5),
            "PG" => Ty::Probe(6),
            "PL" => Ty::Probe(7),
            "PT" => Ty::Probe(8),
            _ => {
                let signed = match a.as_bytes()[0] {
                    b'u' => false,
                    b'i' => true,
                    _ => panic!("type {}", a),
                };
                Ty::Int(a[1..].parse::<usize>().unwrap() / 8, signed)
            }
        },
        Sx::L(v) => match v[0].a() {
            "opt" => Ty::Opt(Box::new(ty(&v[1]))),
            "vec" => Ty::Vec(Box::new(ty(&v[1]))),
            "arr" => Ty::Arr(v[1].n() as usize, Box::new(ty(&v[2]))),
            "pair" => Ty::Pair(Box::new(ty(&v[1])), Box::new(ty(&v[2]))),
            "ld" => Ty::Ld(Box::new(ty(&v[1]))),
            "def" => Ty::Def(v[1].a().to_string(), v[2..].iter().map(ty).collect()),
            "param" => Ty::Param(v[1].n() as usize),
            h => panic!("type {}", h),
        },
    }
}

#[derive(Debug, Clone)]
pub enum E {
    Lit(i128),
    Var(String),
    /// full value of an unsigned variable, without passing through i64
    UVar(String),
    Min(Box<E>, Box<E>),
    Len(String),
    SelfV,
    ILen,
    OLen,
    /// the byte order of the machine: 1 little, 0 big
    Native,
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Rem(Box<E>, Box<E>),
    Eq(Box<E>, Box<E>),
    Gt(Box<E>, Box<E>),
    And(Box<E>, Box<E>),
    Or(Box<E>, Box<E>),
    Not(Box<E>),
    Evx(u32, Box<E>),
}
pub fn expr(s: &Sx) -> E {
    match s {
        Sx::A(a) => match a.as_str() {
            "self" => E::SelfV,
            "ilen" => E::ILen,
            "olen" => E::OLen,
            "native" => E::Native,
            _ => E::Lit(s.n()),
        },
        Sx::L(v) => {
            let b = |k: usize| Box::new(expr(&v[k]));
            match v[0].a() {
                "v" => E::Var(v[1].a().to_string()),
                "u" => E::UVar(v[1].a().to_string()),
                "min" | "umin" => E::Min(b(1), b(2)),
                "len" => E::Len(v[1].a().to_string()),
                "+" => E::Add(b(1), b(2)),
                "-" => E::Sub(b(1), b(2)),
                "*" => E::Mul(b(1), b(2)),
                "%" => E::Rem(b(1), b(2)),
                "==" => E::Eq(b(1), b(2)),
                ">" => E::Gt(b(1), b(2)),
                "and" => E::And(b(1), b(2)),
                "or" => E::Or(b(1), b(2)),
                "not" => E::Not(b(1)),
                "evx" => E::Evx(v[1].n() as u32, b(2)),
                h => panic!("expr {}", h),
            }
        }
    }
}

/// parser expression given by the user (Parse=, LengthCount=)
#[derive(Debug, Clone)]
pub enum P {
    /// `<T>::method`
    Ty(Ty, u8),
    /// nom::number::{streaming,complete} function: width, signed, little, complete
    Num(usize, bool, bool, bool),
    Take(usize),
    /// call of an inherent/trait function with extra arguments
    Call(String, u8, Vec<E>),
    Custom(u8),
    Cond(E, Box<P>),
    Pair(Box<P>, Box<P>),
}
pub fn parser(s: &Sx) -> P {
    let v = s.l();
    match v[0].a() {
        "ty" => P::Ty(ty(&v[1]), v[2].n() as u8),
        "num" => P::Num(v[1].n() as usize, v[2].n() != 0, v[3].n() != 0, v[4].n() != 0),
        "take" => P::Take(v[1].n() as usize),
        "call" => P::Call(v[1].a().to_string(), v[2].n() as u8, v[3..].iter().map(expr).collect()),
        "custom" => P::Custom(v[1].n() as u8),
        "condp" => P::Cond(expr(&v[1]), Box::new(parser(&v[2]))),
        "pairp" => P::Pair(Box::new(parser(&v[1])), Box::new(parser(&v[2]))),
        h => panic!("parser {}", h),
    }
}

/// parser-shaping attribute, in the order written
#[derive(Debug, Clone)]
pub enum Ch {
    Tag(Vec<u8>),
    Take(E),
    Value(E, Ty),
    Parse(P),
    Ignore,
    Complete,
    Debug,
    Cond(E),
    Count(E),
    LCount(P),
    /// conversion: 0 identity-like integer widening, 1 slice to Vec<u8>, 2 identity
    Into(u8),
    /// 0 wrapping +1 in the type; 1 to_string
    Map(u8),
    Verify(E),
}
fn chain(s: &Sx) -> Ch {
    let v = match s {
        Sx::A(a) => {
            return match a.as_str() {
                "ignore" => Ch::Ignore,
                "complete" => Ch::Complete,
                "debug" => Ch::Debug,
                _ => panic!("chain {}", a),
            }
        }
        Sx::L(v) => v,
    };
    match v[0].a() {
        "tag" => Ch::Tag(v[1..].iter().map(|b| b.n() as u8).collect()),
        "take" => Ch::Take(expr(&v[1])),
        "value" => Ch::Value(expr(&v[1]), ty(&v[2])),
        "parse" => Ch::Parse(parser(&v[1])),
        "cond" => Ch::Cond(expr(&v[1])),
        "count" => Ch::Count(expr(&v[1])),
        "lcount" => Ch::LCount(parser(&v[1])),
        "into" => Ch::Into(v[1].n() as u8),
        "map" => Ch::Map(v[1].n() as u8),
        "verify" => Ch::Verify(expr(&v[1])),
        h => panic!("chain {}", h),
    }
}

#[derive(Debug, Clone)]
pub enum Dir {
    Ev(u32, E),
    Let(String, E),
    /// assignment to a variable or argument
    Set(String, E),
    /// user code that parses: `let (i, v) = parser(i)?;`
    Read(String, P),
    Align(E),
    Skip(E),
    Move(E),
    MoveAbs(E),
    ErrIf(E),
    Exact,
    SetEndian(E),
}
fn dir(s: &Sx) -> Dir {
    let v = match s {
        Sx::A(a) if a == "exact" => return Dir::Exact,
        s => s.l(),
    };
    match v[0].a() {
        "ev" => Dir::Ev(v[1].n() as u32, expr(&v[2])),
        "let" => Dir::Let(v[1].a().to_string(), expr(&v[2])),
        "set" => Dir::Set(v[1].a().to_string(), expr(&v[2])),
        "read" => Dir::Read(v[1].a().to_string(), parser(&v[2])),
        "align" => Dir::Align(expr(&v[1])),
        "skip" => Dir::Skip(expr(&v[1])),
        "move" => Dir::Move(expr(&v[1])),
        "moveabs" => Dir::MoveAbs(expr(&v[1])),
        "errif" => Dir::ErrIf(expr(&v[1])),
        "setendian" => Dir::SetEndian(expr(&v[1])),
        h => panic!("dir {}", h),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum En {
    Unset,
    Be,
    Le,
}
fn endian(s: &Sx) -> En {
    match s.a() {
        "-" => En::Unset,
        "be" => En::Be,
        "le" => En::Le,
        a => panic!("endian {}", a),
    }
}

#[derive(Debug, Clone)]
pub struct Field {
    pub name: String,
    /// as written in the definition
    pub written: String,
    pub ty: Ty,
    pub endian: En,
    pub chain: Vec<Ch>,
    pub pre: Vec<Dir>,
    pub post: Vec<Dir>,
}
fn field(s: &Sx) -> Field {
    let v = s.l();
    assert_eq!(v[0].a(), "f");
    Field {
        name: v[1].a().to_string(),
        written: v.get(7).unwrap_or(&v[1]).a().to_string(),
        ty: ty(&v[2]),
        endian: endian(&v[3]),
        chain: v[4].l().iter().map(chain).collect(),
        pre: v[5].l().iter().map(dir).collect(),
        post: v[6].l().iter().map(dir).collect(),
    }
}

#[derive(Debug, Clone)]
pub enum Pat {
    Any,
    Lit(i128),
    Str(String),
    Range(i128, i128),
    Alt(Vec<Pat>),
    Bind(String, Option<Box<Pat>>),
    Some(Box<Pat>),
    None,
    Tup(Box<Pat>, Box<Pat>),
    Wrap(Box<Pat>),
    /// slice: first elements, open in the middle?, last elements
    Slice(Vec<Pat>, bool, Vec<Pat>),
}
fn pat(s: &Sx) -> Pat {
    let v = match s {
        Sx::A(a) => {
            return match a.as_str() {
                "_" => Pat::Any,
                "none" => Pat::None,
                _ => Pat::Lit(s.n()),
            }
        }
        Sx::L(v) => v,
    };
    match v[0].a() {
        "str" => Pat::Str(v.get(1).map(|s| s.a().to_string()).unwrap_or_default()),
        "range" => Pat::Range(v[1].n(), v[2].n()),
        "alt" => Pat::Alt(v[1..].iter().map(pat).collect()),
        "bind" => Pat::Bind(v[1].a().to_string(), v.get(2).map(|p| Box::new(pat(p)))),
        "some" => Pat::Some(Box::new(pat(&v[1]))),
        "tup" => Pat::Tup(Box::new(pat(&v[1])), Box::new(pat(&v[2]))),
        "wrap" => Pat::Wrap(Box::new(pat(&v[1]))),
        "slice" => match v[1..].iter().position(|s| matches!(s, Sx::A(a) if a == "..")) {
            Some(k) => Pat::Slice(v[1..k + 1].iter().map(pat).collect(), true, v[k + 2..].iter().map(pat).collect()),
            None => Pat::Slice(v[1..].iter().map(pat).collect(), false, vec![]),
        },
        h => panic!("pat {}", h),
    }
}

#[derive(Debug, Clone)]
pub struct Variant {
    pub pat: Pat,
    pub guard: Option<E>,
    pub unit: bool,
    pub fields: Vec<Field>,
    // unit variants only
    pub parse: Option<P>,
    pub pre: Vec<Dir>,
    pub post: Vec<Dir>,
}

#[derive(Debug, Clone)]
pub enum Body {
    Struct(Vec<Field>),
    Enum(String, Vec<Variant>),
    Fieldless(usize, bool, Vec<i128>),
}

#[derive(Debug, Clone)]
pub struct Def {
    pub name: String,
    pub endian: En,
    pub complete: bool,
    pub debug: bool,
    /// extra argument names
    pub args: Vec<String>,
    pub pre: Vec<Dir>,
    pub post: Vec<Dir>,
    pub body: Body,
}

/// (def NAME endian complete (args) (pre) (post) BODY)
pub fn def(s: &Sx) -> Def {
    let v = s.l();
    assert_eq!(v[0].a(), "def");
    let b = v[7].l();
    let body = match b[0].a() {
        "struct" => Body::Struct(b[1..].iter().map(field).collect()),
        "enum" => Body::Enum(
            b[1].a().to_string(),
            b[2..]
                .iter()
                .map(|s| {
                    // (var PAT GUARD|- unit? PARSE|- (pre) (post) fields...)
                    let v = s.l();
                    Variant {
                        pat: pat(&v[1]),
                        guard: match &v[2] {
                            Sx::A(a) if a == "-" => None,
                            e => Some(expr(e)),
                        },
                        unit: v[3].n() != 0,
                        parse: match &v[4] {
                            Sx::A(_) => None,
                            p => Some(parser(p)),
                        },
                        pre: v[5].l().iter().map(dir).collect(),
                        post: v[6].l().iter().map(dir).collect(),
                        fields: v[7..].iter().map(field).collect(),
                    }
                })
                .collect(),
        ),
        "fieldless" => {
            let (w, s) = match ty(&b[1]) {
                Ty::Int(w, s) => (w, s),
                _ => panic!("repr"),
            };
            Body::Fieldless(w, s, b[2..].iter().map(|x| x.n()).collect())
        }
        h => panic!("body {}", h),
    };
    Def {
        name: v[1].a().to_string(),
        endian: endian(&v[2]),
        complete: v[3].n() & 1 != 0,
        debug: v[3].n() & 2 != 0,
        args: v[4].l().iter().map(|a| a.a().to_string()).collect(),
        pre: v[5].l().iter().map(dir).collect(),
        post: v[6].l().iter().map(dir).collect(),
        body,
    }
}

pub struct Defs(pub HashMap<String, Def>);
pub fn defs(s: &str) -> Defs {
    Defs(parse_all(s).iter().map(|s| def(s)).map(|d| (d.name.clone(), d)).collect())
}
