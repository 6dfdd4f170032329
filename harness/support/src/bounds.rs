//! Types for the bounds checks (spec/Bounds.tla): markers with exactly the
//! traits of a set, and wrappers.
#![allow(warnings)]
use parse_display::{FromStrRegex, ParseError};
use std::fmt::{self, Binary, Debug, Display, Formatter, LowerHex};
use std::marker::PhantomData;
use std::str::FromStr;

/// bits of S: Display, Debug, LowerHex, FromStr (with FromStrRegex)
#[derive(Default)]
pub struct Mk<const S: u8>;
pub trait Assoc {
    type Out;
}
macro_rules! fmt_impls { ($t:ident: $($s:literal)*) => {$( impl $t for Mk<$s> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("m") } } )*} }
macro_rules! from_impls { ($($s:literal)*) => {$( impl FromStr for Mk<$s> { type Err = (); fn from_str(_: &str) -> Result<Self, ()> { Ok(Mk) } } )*} }
macro_rules! rx_impls { ($($s:literal)*) => {$( impl FromStrRegex for Mk<$s> { fn from_str_regex() -> String { "m".into() } } )*} }
macro_rules! out_impls { ($($s:literal $o:literal)*) => {$( impl Assoc for Mk<$s> { type Out = Mk<$o>; } )*} }
fmt_impls!(Display: 1 3 5 7 9 11 13 15);
fmt_impls!(Debug: 2 3 6 7 10 11 14 15);
fmt_impls!(LowerHex: 4 5 6 7 12 13 14 15);
from_impls!(8 9 10 11 12 13 14 15);
rx_impls!(8 9 10 11 12 13 14 15);
out_impls!(0 15 1 14 2 13 3 12 4 11 5 10 6 9 7 8 8 7 9 6 10 5 11 4 12 3 13 2 14 1 15 0);

/// every trait its content has
pub struct Wr<T>(pub T);
macro_rules! wrap_fmt { ($($t:ident)*) => {$( impl<T: $t> $t for Wr<T> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { self.0.fmt(f) } } )*} }
wrap_fmt!(Display Debug LowerHex);
impl<T: FromStr> FromStr for Wr<T> {
    type Err = T::Err;
    fn from_str(s: &str) -> Result<Self, T::Err> {
        s.parse().map(Wr)
    }
}
impl<T: FromStrRegex> FromStrRegex for Wr<T> {
    fn from_str_regex() -> String {
        T::from_str_regex()
    }
}
/// the same traits whatever its content
pub struct Fix<T>(PhantomData<T>);
impl<T> Default for Fix<T> {
    fn default() -> Self {
        Fix(PhantomData)
    }
}
impl<T> Display for Fix<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.write_str("fix")
    }
}
impl<T> Debug for Fix<T> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        f.write_str("fix")
    }
}
impl<T> FromStr for Fix<T> {
    type Err = ();
    fn from_str(_: &str) -> Result<Self, ()> {
        Ok(Fix(PhantomData))
    }
}
/// traits by constant
pub struct Arr<const N: usize>;
macro_rules! arr_fmt { ($($t:ident $n:literal)*) => {$( impl $t for Arr<$n> { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("arr") } } )*} }
arr_fmt!(Display 0 Display 1 Debug 0 Debug 2);
impl FromStr for Arr<1> {
    type Err = ();
    fn from_str(_: &str) -> Result<Self, ()> {
        Ok(Arr)
    }
}

/// does a concrete type implement a trait
#[macro_export]
macro_rules! implements {
    ($t:ty, $($tr:tt)+) => {{
        trait No {
            const YES: bool = false;
        }
        impl<T: ?Sized> No for T {}
        struct Is<T: ?Sized>(::core::marker::PhantomData<T>);
        impl<T: ?Sized + $($tr)+> Is<T> {
            const YES: bool = true;
        }
        <Is<$t>>::YES
    }};
}
