//! Observed values and outcomes.
use nom_derive::nom::{self, error::ErrorKind};
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    I(i128),
    F(u64),
    /// byte slice: offset in the caller buffer and length
    Bytes(usize, usize),
    /// byte slice which does not point in the caller buffer
    Alien(Vec<u8>),
    Str(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    St(Vec<Val>),
    Var(u16, Vec<Val>),
    Phantom,
    Unit,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Need {
    Size(usize),
    Unknown,
    /// only in predictions: amount not specified
    Any,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok { val: Val, off: usize, len: usize },
    /// kind/off are None when the error type does not record them (observed) or when not specified (predicted)
    Err { fail: bool, kind: Option<ErrorKind>, off: Option<usize> },
    Inc(Need),
    Panic(String),
    /// remaining input or error position is not a suffix of the caller buffer
    AlienRem(String),
    /// prediction gave up (step limit)
    Skip,
}

impl Out {
    pub fn class(&self) -> String {
        match self {
            Out::Ok { .. } => "Ok".into(),
            Out::Err { fail, kind, .. } => format!("{}:{}", if *fail { "Failure" } else { "Error" }, kind.map(|k| format!("{:?}", k)).unwrap_or_else(|| "?".into())),
            Out::Inc(Need::Size(_)) => "Incomplete:Size".into(),
            Out::Inc(_) => "Incomplete:?".into(),
            Out::Panic(_) => "Panic".into(),
            Out::AlienRem(_) => "Alien".into(),
            Out::Skip => "Skip".into(),
        }
    }
}

/// does the observed outcome agree with the predicted one?
pub fn agrees(pred: &Out, real: &Out) -> bool {
    match (pred, real) {
        (Out::Skip, _) => true,
        (Out::Ok { val: a, off: o1, len: l1 }, Out::Ok { val: b, off: o2, len: l2 }) => a == b && o1 == o2 && l1 == l2,
        (Out::Err { fail: f1, kind: k1, off: o1 }, Out::Err { fail: f2, kind: k2, off: o2 }) => {
            f1 == f2 && (k1.is_none() || k2.is_none() || k1 == k2) && (o1.is_none() || o2.is_none() || o1 == o2)
        }
        (Out::Inc(a), Out::Inc(b)) => *a == Need::Any || a == b,
        _ => false,
    }
}

/// Buffer a value was parsed from
#[derive(Clone, Copy)]
pub struct Base {
    pub ptr: usize,
    pub len: usize,
}
impl Base {
    pub fn new(b: &[u8]) -> Base {
        Base { ptr: b.as_ptr() as usize, len: b.len() }
    }
    pub fn locate(&self, s: &[u8]) -> Option<usize> {
        let p = s.as_ptr() as usize;
        if p >= self.ptr && p + s.len() <= self.ptr + self.len {
            Some(p - self.ptr)
        } else {
            None
        }
    }
}

pub trait ToVal {
    fn tv(&self, b: Base) -> Val;
}
/// for bounds over all lifetimes
pub trait Hr<'z> {}
impl<'z, T: ToVal> Hr<'z> for T {}
macro_rules! tvi { ($($t:ty),*) => { $(impl ToVal for $t { fn tv(&self, _b: Base) -> Val { Val::I(*self as i128) } })* } }
tvi!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, bool);
impl ToVal for f32 {
    fn tv(&self, _: Base) -> Val {
        Val::F(self.to_bits() as u64)
    }
}
impl ToVal for f64 {
    fn tv(&self, _: Base) -> Val {
        Val::F(self.to_bits())
    }
}
impl ToVal for String {
    fn tv(&self, _: Base) -> Val {
        Val::Str(self.clone())
    }
}
impl<T> ToVal for PhantomData<T> {
    fn tv(&self, _: Base) -> Val {
        Val::Phantom
    }
}
impl ToVal for () {
    fn tv(&self, _: Base) -> Val {
        Val::Unit
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn tv(&self, b: Base) -> Val {
        match self {
            Some(x) => Val::Some(Box::new(x.tv(b))),
            None => Val::None,
        }
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn tv(&self, b: Base) -> Val {
        Val::List(self.iter().map(|x| x.tv(b)).collect())
    }
}
impl<T: ToVal, const N: usize> ToVal for [T; N] {
    fn tv(&self, b: Base) -> Val {
        Val::List(self.iter().map(|x| x.tv(b)).collect())
    }
}
impl<A: ToVal, B: ToVal> ToVal for (A, B) {
    fn tv(&self, b: Base) -> Val {
        Val::St(vec![self.0.tv(b), self.1.tv(b)])
    }
}
impl ToVal for &[u8] {
    fn tv(&self, b: Base) -> Val {
        match b.locate(self) {
            Some(o) => Val::Bytes(o, self.len()),
            None => Val::Alien(self.to_vec()),
        }
    }
}
impl<L, D: ToVal> ToVal for nom_derive::LengthData<L, D> {
    fn tv(&self, b: Base) -> Val {
        Val::St(vec![self.data.tv(b)])
    }
}

// ---- event log and observation context (per thread) ----
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ev(pub u32, pub i64);

thread_local! {
    static EVENTS: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    static BASE: Cell<usize> = const { Cell::new(0) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    pub static IN_CALL: Cell<bool> = const { Cell::new(false) };
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
pub const MAX_EVENTS: usize = 200_000;
/// called by user code in attributes
pub fn ev(id: u32, v: i64) {
    EVENTS.with(|e| {
        let mut e = e.borrow_mut();
        if e.len() < MAX_EVENTS {
            e.push(Ev(id, v))
        }
    });
}
/// logs and returns its value
pub fn evx(id: u32, v: i64) -> i64 {
    ev(id, v);
    v
}
pub fn take_events() -> Vec<Ev> {
    EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
pub fn set_base(p: usize) {
    BASE.with(|b| b.set(p));
}
pub fn offset_of(i: &[u8]) -> i64 {
    BASE.with(|b| i.as_ptr() as i64 - b.get() as i64)
}

// ---- error types ----
pub trait ObsErr {
    fn obs(&self, b: Base) -> (Option<ErrorKind>, Option<Option<usize>>);
}
fn suffix(b: Base, i: &[u8]) -> Option<usize> {
    match b.locate(i) {
        Some(o) if o + i.len() == b.len => Some(o),
        _ => None,
    }
}
impl ObsErr for nom::error::Error<&[u8]> {
    fn obs(&self, b: Base) -> (Option<ErrorKind>, Option<Option<usize>>) {
        (Some(self.code), Some(suffix(b, self.input)))
    }
}
impl ObsErr for () {
    fn obs(&self, _: Base) -> (Option<ErrorKind>, Option<Option<usize>>) {
        (None, None)
    }
}
impl ObsErr for (&[u8], ErrorKind) {
    fn obs(&self, b: Base) -> (Option<ErrorKind>, Option<Option<usize>>) {
        (Some(self.1), Some(suffix(b, self.0)))
    }
}
/// error type recording the whole chain
#[derive(Debug, Clone, PartialEq)]
pub struct Trace<'a> {
    pub chain: Vec<(&'a [u8], ErrorKind)>,
}
impl<'a> nom::error::ParseError<&'a [u8]> for Trace<'a> {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self {
        Trace { chain: vec![(i, k)] }
    }
    fn append(i: &'a [u8], k: ErrorKind, mut o: Self) -> Self {
        o.chain.push((i, k));
        o
    }
    // alternatives are kept in the order they were tried
    fn or(mut self, o: Self) -> Self {
        self.chain.extend(o.chain);
        self
    }
}
impl<'a, X> nom::error::FromExternalError<&'a [u8], X> for Trace<'a> {
    fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self {
        Trace { chain: vec![(i, k)] }
    }
}
impl ObsErr for Trace<'_> {
    fn obs(&self, b: Base) -> (Option<ErrorKind>, Option<Option<usize>>) {
        // every position of the chain has to be in the buffer
        for (i, _) in &self.chain {
            if suffix(b, i).is_none() {
                return (Some(self.chain[0].1), Some(None));
            }
        }
        (Some(self.chain[0].1), Some(suffix(b, self.chain[0].0)))
    }
}
/// error type that deliberately has no Clone/PartialEq/Debug-friendly content and is large
pub struct Fat {
    pub kind: ErrorKind,
    pub len: usize,
    pub pad: [u64; 16],
}
impl std::fmt::Debug for Fat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Fat")
    }
}
impl<'a> nom::error::ParseError<&'a [u8]> for Fat {
    fn from_error_kind(i: &'a [u8], kind: ErrorKind) -> Self {
        Fat { kind, len: i.len(), pad: [7; 16] }
    }
    fn append(_: &'a [u8], _: ErrorKind, o: Self) -> Self {
        o
    }
}
impl<'a, X> nom::error::FromExternalError<&'a [u8], X> for Fat {
    fn from_external_error(i: &'a [u8], kind: ErrorKind, _: X) -> Self {
        Fat { kind, len: i.len(), pad: [7; 16] }
    }
}
impl ObsErr for Fat {
    fn obs(&self, b: Base) -> (Option<ErrorKind>, Option<Option<usize>>) {
        (Some(self.kind), Some(b.len.checked_sub(self.len)))
    }
}

/// Run a parser on `i` and record what happened.
pub fn run<'i, T: ToVal, E: ObsErr>(i: &'i [u8], f: impl FnOnce(&'i [u8]) -> nom::IResult<&'i [u8], T, E>) -> Out {
    let b = Base::new(i);
    IN_CALL.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)));
    crate::alloc::stop();
    IN_CALL.with(|c| c.set(false));
    observe(b, r)
}

fn observe<T: ToVal, E: ObsErr>(b: Base, r: std::thread::Result<nom::IResult<&[u8], T, E>>) -> Out {
    let err = |fail, e: E| {
        let (kind, off) = e.obs(b);
        match off {
            Some(None) => Out::AlienRem(format!("error position (kind {:?}) is not a suffix of the input", kind)),
            Some(Some(o)) => Out::Err { fail, kind, off: Some(o) },
            None => Out::Err { fail, kind, off: None },
        }
    };
    match r {
        Ok(Ok((rem, v))) => match suffix(b, rem) {
            Some(off) => Out::Ok { val: v.tv(b), off, len: rem.len() },
            None => Out::AlienRem(format!("remaining input (len {}) is not a suffix of the input", rem.len())),
        },
        Ok(Err(nom::Err::Error(e))) => err(false, e),
        Ok(Err(nom::Err::Failure(e))) => err(true, e),
        Ok(Err(nom::Err::Incomplete(nom::Needed::Size(n)))) => Out::Inc(Need::Size(n.get())),
        Ok(Err(nom::Err::Incomplete(nom::Needed::Unknown))) => Out::Inc(Need::Unknown),
        Err(_) => Out::Panic(PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut()))),
    }
}
