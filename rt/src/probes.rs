//! Hand-written Parse implementations and parser functions, as a user would write them.
//! Each records which method was called and where (event log).
use crate::val::*;
use nom_derive::nom::{self, error::ErrorKind, error::ParseError, IResult, Needed};
use nom_derive::Parse;

/// event ids of probes
pub const EV_PROBE: u32 = 1000;
/// hard stop for a runaway loop over element parsers
pub const CALL_LIMIT: u64 = 4_000_000;

fn call(kind: u32, m: u8, i: &[u8]) {
    CALLS.with(|c| {
        let v = c.get() + 1;
        c.set(v);
        if v > CALL_LIMIT {
            panic!("probe call limit exceeded: element parser called more than {} times", CALL_LIMIT);
        }
    });
    ev(EV_PROBE + kind, ((m as i64) << 40) | offset_of(i));
}

fn need<'a, E>(i: &'a [u8], n: usize) -> Result<(&'a [u8], &'a [u8]), nom::Err<E>> {
    if i.len() < n {
        Err(nom::Err::Incomplete(Needed::new(n - i.len())))
    } else {
        Ok((&i[n..], &i[..n]))
    }
}

/// two bytes; records the method; all three methods implemented
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PA {
    pub m: u8,
    pub v: u16,
}
fn pa<'a, E>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PA, E> {
    call(0, m, i);
    let (r, b) = need(i, 2)?;
    let v = if m == 2 { u16::from_le_bytes([b[0], b[1]]) } else { u16::from_be_bytes([b[0], b[1]]) };
    Ok((r, PA { m, v }))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PA {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pa(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pa(1, i)
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pa(2, i)
    }
}
impl ToVal for PA {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.m as i128), Val::I(self.v as i128)])
    }
}

/// one byte, only `parse` implemented
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PB(pub u8);
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PB {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        call(1, 0, i);
        let (r, b) = need(i, 1)?;
        Ok((r, PB(b[0])))
    }
}
impl ToVal for PB {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.0 as i128)])
    }
}

/// borrowed: length byte, then that many bytes; only `parse` and `parse_le`
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PC<'a> {
    pub m: u8,
    pub d: &'a [u8],
}
fn pc<'a, E>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PC<'a>, E> {
    call(2, m, i);
    let (r, b) = need(i, 1)?;
    let (r, d) = need(r, b[0] as usize)?;
    Ok((r, PC { m, d }))
}
impl<'a, 'n: 'a, E: ParseError<&'n [u8]>> Parse<&'n [u8], E> for PC<'a> {
    fn parse(i: &'n [u8]) -> IResult<&'n [u8], Self, E> {
        pc(0, i)
    }
    fn parse_le(i: &'n [u8]) -> IResult<&'n [u8], Self, E> {
        pc(2, i)
    }
}
impl ToVal for PC<'_> {
    fn tv(&self, b: Base) -> Val {
        Val::St(vec![Val::I(self.m as i128), self.d.tv(b)])
    }
}

/// one byte; 0xEE: Failure(Fail), 0xDD: Error(Not), 0xCC: Incomplete(Unknown); only parse_be / parse_le differ
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PF {
    pub m: u8,
    pub v: u8,
}
fn pf<'a, E: ParseError<&'a [u8]>>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PF, E> {
    call(3, m, i);
    let (r, b) = need(i, 1)?;
    match b[0] {
        0xEE => Err(nom::Err::Failure(E::from_error_kind(i, ErrorKind::Fail))),
        0xDD => Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::Not))),
        0xCC => Err(nom::Err::Incomplete(Needed::Unknown)),
        v => Ok((r, PF { m, v })),
    }
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PF {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pf(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pf(1, i)
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pf(2, i)
    }
}
impl ToVal for PF {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.m as i128), Val::I(self.v as i128)])
    }
}

/// consumes nothing
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PZ;
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PZ {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        call(4, 0, i);
        Ok((i, PZ))
    }
}
impl ToVal for PZ {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![])
    }
}

/// one byte, kept out of the value: a zero-sized type which consumes input
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PT;
fn pt<'a, E>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PT, E> {
    call(8, m, i);
    let (r, _) = need(i, 1)?;
    Ok((r, PT))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PT {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pt(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pt(1, i)
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pt(2, i)
    }
}
impl ToVal for PT {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![])
    }
}

/// only `parse` and `parse_be`; little-endian falls back to `parse`. Non-trivial Default.
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct PD {
    pub m: u8,
    pub v: u32,
}
impl Default for PD {
    fn default() -> Self {
        PD { m: 9, v: 4242 }
    }
}
fn pd<'a, E>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PD, E> {
    call(5, m, i);
    let (r, b) = need(i, 3)?;
    Ok((r, PD { m, v: u32::from_be_bytes([0, b[0], b[1], b[2]]) }))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PD {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pd(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pd(1, i)
    }
}
impl ToVal for PD {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.m as i128), Val::I(self.v as i128)])
    }
}

/// two bytes; records the method; implemented for the default error only
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PG {
    pub m: u8,
    pub v: u16,
}
fn pg(m: u8, i: &[u8]) -> IResult<&[u8], PG> {
    call(6, m, i);
    let (r, b) = need(i, 2)?;
    let v = if m == 2 { u16::from_le_bytes([b[0], b[1]]) } else { u16::from_be_bytes([b[0], b[1]]) };
    Ok((r, PG { m, v }))
}
impl<'a> Parse<&'a [u8]> for PG {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self> {
        pg(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self> {
        pg(1, i)
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self> {
        pg(2, i)
    }
}
impl ToVal for PG {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.m as i128), Val::I(self.v as i128)])
    }
}

/// one byte, usable as the length of LengthData; records the method in the event log only
#[derive(Debug, PartialEq, Clone, Copy, Default)]
pub struct PL(pub u8);
fn pl<'a, E>(m: u8, i: &'a [u8]) -> IResult<&'a [u8], PL, E> {
    call(7, m, i);
    let (r, b) = need(i, 1)?;
    Ok((r, PL(b[0])))
}
impl<'a, E: ParseError<&'a [u8]>> Parse<&'a [u8], E> for PL {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pl(0, i)
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pl(1, i)
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        pl(2, i)
    }
}
impl nom::ToUsize for PL {
    fn to_usize(&self) -> usize {
        self.0 as usize
    }
}
impl ToVal for PL {
    fn tv(&self, _: Base) -> Val {
        Val::St(vec![Val::I(self.0 as i128)])
    }
}

// ---- parser functions for Parse=, LengthCount=, Into ----
/// one byte, non generic error (for Into)
pub fn p_byte(i: &[u8]) -> IResult<&[u8], u8> {
    call(20, 0, i);
    let (r, b) = need(i, 1)?;
    Ok((r, b[0]))
}
/// two bytes slice, non generic error (for Into)
pub fn p_two(i: &[u8]) -> IResult<&[u8], &[u8]> {
    call(21, 0, i);
    need(i, 2)
}
/// LEB128-like number, at most 10 bytes; generic error; returns usize
pub fn p_varint<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], usize, E> {
    call(22, 0, i);
    let mut v = 0u64;
    let mut n = 0;
    loop {
        let (_, b) = need(&i[n..], 1)?;
        v |= ((b[0] & 0x7f) as u64) << (7 * n as u32);
        n += 1;
        if b[0] & 0x80 == 0 {
            return Ok((&i[n..], v as usize));
        }
        if n == 4 {
            return Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::TooLarge)));
        }
    }
}
/// always Failure
pub fn p_fail<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
    call(23, 0, i);
    Err(nom::Err::Failure(E::from_error_kind(i, ErrorKind::Fail)))
}
/// always Error(Not)
pub fn p_err<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, E> {
    call(24, 0, i);
    Err(nom::Err::Error(E::from_error_kind(i, ErrorKind::Not)))
}
/// all the rest of the input
pub fn p_rest<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], &'a [u8], E> {
    call(25, 0, i);
    Ok((&i[i.len()..], i))
}
/// one byte, consumed only by value: used for unit variants
pub fn p_unit<'a, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], (), E> {
    call(26, 0, i);
    let (r, _) = need(i, 1)?;
    Ok((r, ()))
}

// ---- Map functions ----
macro_rules! inc { ($($n:ident $t:ty),*) => { $(pub fn $n(x: $t) -> $t { x.wrapping_add(1) })* } }
inc!(inc_u8 u8, inc_u16 u16, inc_u32 u32, inc_u64 u64, inc_u128 u128, inc_i8 i8, inc_i16 i16, inc_i32 i32, inc_i64 i64, inc_i128 i128);

// ---- selectors ----
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Msg(pub u8);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Sel {
    A,
    B,
    C,
}
/// selector with named fields
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Rec {
    pub a: u8,
    pub b: u8,
}
pub const K5: u8 = 5;
pub fn sel_chr(v: i64) -> char {
    ['a', 'b', 'z', '0', '\n', '\u{e9}', '\u{10ffff}'][v.rem_euclid(7) as usize]
}
pub fn sel_bytes(v: i64) -> &'static [u8] {
    [&b""[..], &[0], &[1, 2], b"ab", &[1, 2, 3], &[5, 0, 0, 9]][v.rem_euclid(6) as usize]
}
pub fn sel_opt(v: i64) -> Option<u8> {
    if v < 0 {
        None
    } else {
        Some(v as u8)
    }
}
pub fn sel_enum(v: i64) -> Sel {
    match v.rem_euclid(3) {
        0 => Sel::A,
        1 => Sel::B,
        _ => Sel::C,
    }
}
pub fn sel_str(v: i64) -> &'static str {
    match v.rem_euclid(4) {
        0 => "",
        1 => "a",
        2 => "bc",
        _ => "z",
    }
}
