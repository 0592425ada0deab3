//! Coefficient types the real code is instantiated with.
use num::rational::Ratio;
use num::{Complex, One, Zero};
use std::fmt::Debug;
use std::ops::*;

pub trait Co: Copy + PartialEq + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const SIGNED: bool;
    const FLOAT: bool = false;
    /// Range of integers represented exactly (and contiguously).
    const MIN: i128;
    const MAX: i128;
    fn mk(v: i128) -> Self;
    /// The exact integer value; None if it is not an integer.
    fn val(self) -> Option<i128>;
    /// Reduction of a model value (identity except in finite fields).
    fn red(v: i128) -> i128 {
        v
    }
    fn fits(v: i128) -> bool {
        v >= Self::MIN && v <= Self::MAX
    }
    fn bits(self) -> u128;
}
pub trait Ring:
    Co
    + Zero
    + One
    + Add<Output = Self>
    + AddAssign
    + Sub<Output = Self>
    + SubAssign
    + Mul<Output = Self>
    + MulAssign
    + Div<Output = Self>
    + DivAssign
{
}
impl<T> Ring for T where
    T: Co
        + Zero
        + One
        + Add<Output = Self>
        + AddAssign
        + Sub<Output = Self>
        + SubAssign
        + Mul<Output = Self>
        + MulAssign
        + Div<Output = Self>
        + DivAssign
{
}
pub trait SRing: Ring + Neg<Output = Self> {}
impl<T: Ring + Neg<Output = T>> SRing for T {}

macro_rules! co_int {
    ($($t:ident $s:expr;)*) => {$(
        impl Co for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = $s;
            const MIN: i128 = $t::MIN as i128;
            const MAX: i128 = if $t::MAX as u128 > i128::MAX as u128 { i128::MAX } else { $t::MAX as i128 };
            fn mk(v: i128) -> Self { debug_assert!(Self::fits(v)); v as $t }
            fn val(self) -> Option<i128> {
                if !$s && self as u128 > i128::MAX as u128 { None } else { Some(self as i128) }
            }
            fn bits(self) -> u128 { self as u128 }
        }
    )*};
}
co_int! { i8 true; i16 true; i32 true; i64 true; i128 true; isize true;
u8 false; u16 false; u32 false; u64 false; u128 false; usize false; }

impl Co for f64 {
    const NAME: &'static str = "f64";
    const SIGNED: bool = true;
    const FLOAT: bool = true;
    const MIN: i128 = -(1 << 53);
    const MAX: i128 = 1 << 53;
    fn mk(v: i128) -> Self {
        v as f64
    }
    fn val(self) -> Option<i128> {
        if self.fract() == 0.0 && self.abs() < 1e38 {
            Some(self as i128)
        } else {
            None
        }
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Co for f32 {
    const NAME: &'static str = "f32";
    const SIGNED: bool = true;
    const FLOAT: bool = true;
    const MIN: i128 = -(1 << 24);
    const MAX: i128 = 1 << 24;
    fn mk(v: i128) -> Self {
        v as f32
    }
    fn val(self) -> Option<i128> {
        if self.fract() == 0.0 && self.abs() < 1e38 {
            Some(self as i128)
        } else {
            None
        }
    }
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Co for Ratio<i64> {
    const NAME: &'static str = "Ratio<i64>";
    const SIGNED: bool = true;
    const MIN: i128 = i64::MIN as i128 + 1;
    const MAX: i128 = i64::MAX as i128;
    fn mk(v: i128) -> Self {
        Ratio::from_integer(v as i64)
    }
    fn val(self) -> Option<i128> {
        if *self.denom() == 1 {
            Some(*self.numer() as i128)
        } else {
            None
        }
    }
    fn bits(self) -> u128 {
        ((*self.numer() as u64 as u128) << 64) | *self.denom() as u64 as u128
    }
}
/// Gaussian integers with a zero imaginary part stand for integers; used to check that nothing
/// depends on the coefficient type being a primitive number.
impl Co for Complex<i32> {
    const NAME: &'static str = "Complex<i32>";
    const SIGNED: bool = true;
    const MIN: i128 = -30000;
    const MAX: i128 = 30000;
    fn mk(v: i128) -> Self {
        Complex::new(v as i32, 0)
    }
    fn val(self) -> Option<i128> {
        if self.im == 0 {
            Some(self.re as i128)
        } else {
            None
        }
    }
    fn bits(self) -> u128 {
        ((self.re as u32 as u128) << 64) | self.im as u32 as u128
    }
}

/// The finite field with P elements: small enough to enumerate whole polynomial rings up to a degree.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Gf<const P: u64>(pub u64);
impl<const P: u64> Gf<P> {
    fn inv(self) -> Self {
        if self.0 == 0 {
            panic!("attempt to divide by zero");
        }
        let (mut r, mut b, mut e) = (1u64, self.0, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        Gf(r)
    }
}
impl<const P: u64> Add for Gf<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Gf((self.0 + o.0) % P)
    }
}
impl<const P: u64> Sub for Gf<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Gf((self.0 + P - o.0) % P)
    }
}
impl<const P: u64> Mul for Gf<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Gf(self.0 * o.0 % P)
    }
}
impl<const P: u64> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inv()
    }
}
impl<const P: u64> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Gf((P - self.0) % P)
    }
}
macro_rules! asg {
    ($($t:ident $f:ident $o:tt;)*) => {$(
        impl<const P: u64> $t for Gf<P> { fn $f(&mut self, o: Self) { *self = *self $o o; } }
    )*};
}
asg! { AddAssign add_assign +; SubAssign sub_assign -; MulAssign mul_assign *; DivAssign div_assign /; }
impl<const P: u64> Zero for Gf<P> {
    fn zero() -> Self {
        Gf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Gf<P> {
    fn one() -> Self {
        Gf(1)
    }
}
impl<const P: u64> Co for Gf<P> {
    const NAME: &'static str = match P {
        2 => "GF(2)",
        3 => "GF(3)",
        5 => "GF(5)",
        7 => "GF(7)",
        _ => "GF(p)",
    };
    const SIGNED: bool = true;
    const MIN: i128 = i64::MIN as i128;
    const MAX: i128 = i64::MAX as i128;
    fn mk(v: i128) -> Self {
        Gf(v.rem_euclid(P as i128) as u64)
    }
    fn val(self) -> Option<i128> {
        if self.0 < P {
            Some(self.0 as i128)
        } else {
            None
        }
    }
    fn red(v: i128) -> i128 {
        v.rem_euclid(P as i128)
    }
    fn bits(self) -> u128 {
        self.0 as u128
    }
}
