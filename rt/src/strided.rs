//! An input type that is not a slice: bytes two apart in memory, with garbage between them. Library parsers are
//! generic over `InputSlice`, so they have to behave on it exactly as on `&[u8]`.
use crate::val::*;
use nom_derive::nom::{self, error::ErrorKind, Input, Needed};

#[derive(Clone, Copy)]
pub struct Strided<'a> {
    wide: &'a [u8],
    orig: &'a [u8],
    lo: usize,
    hi: usize,
}
impl std::fmt::Debug for Strided<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Strided")
    }
}
/// equality of position, not of content
impl PartialEq for Strided<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.lo == o.lo && self.hi == o.hi
    }
}
impl<'a> Strided<'a> {
    fn sub(&self, a: usize, b: usize) -> Self {
        assert!(a <= b && b <= self.hi - self.lo, "range out of input");
        Strided { lo: self.lo + a, hi: self.lo + b, ..*self }
    }
    fn slice(&self) -> &'a [u8] {
        &self.orig[self.lo..self.hi]
    }
}
pub struct Bytes<'a>(Strided<'a>);
impl Iterator for Bytes<'_> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.0.lo == self.0.hi {
            return None;
        }
        let b = self.0.wide[2 * self.0.lo];
        self.0.lo += 1;
        Some(b)
    }
}
impl<'a> Input for Strided<'a> {
    type Item = u8;
    type Iter = Bytes<'a>;
    type IterIndices = std::iter::Enumerate<Bytes<'a>>;
    fn input_len(&self) -> usize {
        self.hi - self.lo
    }
    fn take(&self, n: usize) -> Self {
        self.sub(0, n)
    }
    fn take_from(&self, n: usize) -> Self {
        self.sub(n, self.hi - self.lo)
    }
    fn take_split(&self, n: usize) -> (Self, Self) {
        (self.take_from(n), self.take(n))
    }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> {
        Bytes(*self).position(p)
    }
    fn iter_elements(&self) -> Bytes<'a> {
        Bytes(*self)
    }
    fn iter_indices(&self) -> Self::IterIndices {
        Bytes(*self).enumerate()
    }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> {
        if self.input_len() >= n {
            Ok(n)
        } else {
            Err(Needed::new(n - self.input_len()))
        }
    }
}
impl nom_derive::InputSlice for Strided<'_> {}

impl ToVal for Strided<'_> {
    fn tv(&self, b: Base) -> Val {
        self.slice().tv(b)
    }
}

/// errors over a strided input, as errors over the slice it stands for
pub trait Flat<'a> {
    type To: ObsErr;
    fn flat(self) -> Self::To;
}
impl<'a> Flat<'a> for nom::error::Error<Strided<'a>> {
    type To = nom::error::Error<&'a [u8]>;
    fn flat(self) -> Self::To {
        nom::error::Error { input: self.input.slice(), code: self.code }
    }
}
impl<'a> Flat<'a> for (Strided<'a>, ErrorKind) {
    type To = (&'a [u8], ErrorKind);
    fn flat(self) -> Self::To {
        (self.0.slice(), self.1)
    }
}
impl<'a> Flat<'a> for () {
    type To = ();
    fn flat(self) {}
}

/// like `run`, the input handed over as a `Strided`
pub fn run_strided<'i, T: ToVal, E: Flat<'i>>(i: &'i [u8], f: impl FnOnce(Strided<'i>) -> nom::IResult<Strided<'i>, T, E>) -> Out {
    let wide: Vec<u8> = i.iter().flat_map(|b| [*b, b.wrapping_add(1) ^ 0x5a]).collect();
    // SAFETY: nothing that borrows from the input outlives this function (`Out` owns its data), `wide` does
    let w: &'i [u8] = unsafe { std::slice::from_raw_parts(wide.as_ptr(), wide.len()) };
    let s = Strided { wide: w, orig: i, lo: 0, hi: i.len() };
    let out = run(i, |_| match f(s) {
        Ok((rem, v)) => Ok((rem.slice(), v)),
        Err(e) => Err(e.map(|e| e.flat())),
    });
    drop(wide);
    out
}
