//! `Sim<f64>` / `Sim<f32>`: the scalar type the code under test computes with. The numbers are real;
//! rounding, underflow, crashes and pre-emption are decided by the environment.

use crate::env::{Tl, TL};
use linfa_linalg::lobpcg::MagnitudeCorrection;
use ndarray::{NdFloat, ScalarOperand};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

/// Scalars the checks run with
pub trait Sc: NdFloat + Sum + MagnitudeCorrection {
    /// the other precision in the same kind of environment
    type Other: Sc;
    const NAME: &'static str;
    const SIM: bool;
    /// unit roundoff (machine epsilon) of the underlying format
    const U: f64;
    const F32: bool;
    fn of(x: f64) -> Self;
    fn raw(self) -> f64;
    fn bits(self) -> u64;
}

pub trait Base:
    Float + fmt::Debug + fmt::Display + fmt::LowerExp + fmt::UpperExp + Send + Sync + 'static
{
    type Other: Base;
    const NAME: &'static str;
    const U: f64;
    const F32: bool;
    fn add_res(a: Self, b: Self, r: Self) -> i8;
    fn mul_res(a: Self, b: Self, r: Self) -> i8;
    fn div_res(a: Self, b: Self, r: Self) -> i8;
    fn sqrt_res(a: Self, r: Self) -> i8;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn subnormal(self) -> bool;
    fn of64(x: f64) -> Self;
    fn to64(self) -> f64;
    fn bits64(self) -> u64;
    fn corr() -> Self;
}

macro_rules! base {
    ($t:ident, $o:ident, $name:literal, $f32:literal) => {
        impl Base for $t {
            type Other = $o;
            const NAME: &'static str = $name;
            const U: f64 = $t::EPSILON as f64;
            const F32: bool = $f32;
            #[inline]
            fn add_res(a: $t, b: $t, r: $t) -> i8 {
                let bb = r - a;
                let e = (a - (r - bb)) + (b - bb);
                sign(e as f64)
            }
            #[inline]
            fn mul_res(a: $t, b: $t, r: $t) -> i8 {
                sign($t::mul_add(a, b, -r) as f64)
            }
            #[inline]
            fn div_res(a: $t, b: $t, r: $t) -> i8 {
                let e = $t::mul_add(-r, b, a);
                if b < 0.0 {
                    -sign(e as f64)
                } else {
                    sign(e as f64)
                }
            }
            #[inline]
            fn sqrt_res(a: $t, r: $t) -> i8 {
                sign($t::mul_add(-r, r, a) as f64)
            }
            fn up(self) -> $t {
                self.next_up()
            }
            fn down(self) -> $t {
                self.next_down()
            }
            fn subnormal(self) -> bool {
                self.is_subnormal()
            }
            fn of64(x: f64) -> $t {
                x as $t
            }
            fn to64(self) -> f64 {
                self as f64
            }
            fn bits64(self) -> u64 {
                self.to_bits() as u64
            }
            fn corr() -> $t {
                <$t as MagnitudeCorrection>::correction()
            }
        }
        impl Sc for $t {
            type Other = $o;
            const NAME: &'static str = $name;
            const SIM: bool = false;
            const U: f64 = $t::EPSILON as f64;
            const F32: bool = $f32;
            fn of(x: f64) -> $t {
                x as $t
            }
            fn raw(self) -> f64 {
                self as f64
            }
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
        }
    };
}
base!(f32, f64, "f32", true);
base!(f64, f32, "f64", false);

#[inline]
fn sign(e: f64) -> i8 {
    if e > 0.0 {
        1
    } else if e < 0.0 {
        -1
    } else {
        0
    }
}

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sim<T>(pub T);

impl<T: Base> Sc for Sim<T> {
    type Other = Sim<T::Other>;
    const NAME: &'static str = if T::F32 { "sim-f32" } else { "sim-f64" };
    const SIM: bool = true;
    const U: f64 = T::U;
    const F32: bool = T::F32;
    fn of(x: f64) -> Self {
        Sim(T::of64(x))
    }
    fn raw(self) -> f64 {
        self.0.to64()
    }
    fn bits(self) -> u64 {
        self.0.bits64()
    }
}

#[cold]
#[inline(never)]
fn perturb<T: Base>(t: &Tl, r: T, res: i8) -> T {
    if res == 0 || !r.is_finite() {
        return r;
    }
    // the exact result lies strictly between r and its neighbour in direction `res`
    let take = match t.mode.get() {
        1 => res > 0,
        2 => res < 0,
        3 => (res > 0) != (r > T::zero()) && !r.is_zero(),
        _ => true,
    };
    if !take {
        return r;
    }
    let n = if res > 0 { r.up() } else { r.down() };
    if !n.is_finite() {
        return r;
    }
    t.perturbed.set(t.perturbed.get() + 1);
    n
}

/// One tick; `res` computes the sign of (exact - rounded)
#[inline(always)]
fn tick<T: Base>(r: T, res: impl FnOnce(T) -> i8) -> Sim<T> {
    TL.with(|t| {
        if !t.on.get() {
            return Sim(r);
        }
        let ops = t.ops.get() + 1;
        t.ops.set(ops);
        if ops >= t.next.get() {
            t.slow();
        }
        let mut r = r;
        let mode = t.mode.get();
        if mode != 0 && (mode != 4 || ((t.rand() >> 32) as u32 & 0xff) < t.thr.get()) {
            r = perturb(t, r, res(r));
        }
        if t.ftz.get() && r.subnormal() {
            t.flushed.set(t.flushed.get() + 1);
            r = if r.is_sign_negative() {
                -T::zero()
            } else {
                T::zero()
            };
        }
        Sim(r)
    })
}

macro_rules! binop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $op:tt, $res:ident, $neg:expr) => {
        impl<T: Base> $tr for Sim<T> {
            type Output = Sim<T>;
            #[inline(always)]
            fn $f(self, o: Sim<T>) -> Sim<T> {
                tick(self.0 $op o.0, |r| {
                    let b: T = if $neg { -o.0 } else { o.0 };
                    T::$res(self.0, b, r)
                })
            }
        }
        impl<'a, T: Base> $tr<&'a Sim<T>> for Sim<T> {
            type Output = Sim<T>;
            #[inline(always)]
            fn $f(self, o: &'a Sim<T>) -> Sim<T> { $tr::$f(self, *o) }
        }
        impl<'a, T: Base> $tr<Sim<T>> for &'a Sim<T> {
            type Output = Sim<T>;
            #[inline(always)]
            fn $f(self, o: Sim<T>) -> Sim<T> { $tr::$f(*self, o) }
        }
        impl<T: Base> $atr for Sim<T> {
            #[inline(always)]
            fn $af(&mut self, o: Sim<T>) { *self = $tr::$f(*self, o) }
        }
        impl<'a, T: Base> $atr<&'a Sim<T>> for Sim<T> {
            #[inline(always)]
            fn $af(&mut self, o: &'a Sim<T>) { *self = $tr::$f(*self, *o) }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, +, add_res, false);
binop!(Sub, sub, SubAssign, sub_assign, -, add_res, true);
binop!(Mul, mul, MulAssign, mul_assign, *, mul_res, false);
binop!(Div, div, DivAssign, div_assign, /, div_res, false);

impl<T: Base> Rem for Sim<T> {
    type Output = Sim<T>;
    fn rem(self, o: Sim<T>) -> Sim<T> {
        tick(self.0 % o.0, |_| 0)
    }
}
impl<T: Base> RemAssign for Sim<T> {
    fn rem_assign(&mut self, o: Sim<T>) {
        *self = *self % o
    }
}
impl<T: Base> Neg for Sim<T> {
    type Output = Sim<T>;
    #[inline(always)]
    fn neg(self) -> Sim<T> {
        Sim(-self.0)
    }
}
impl<T: Base> PartialEq for Sim<T> {
    fn eq(&self, o: &Sim<T>) -> bool {
        self.0 == o.0
    }
}
impl<T: Base> PartialOrd for Sim<T> {
    fn partial_cmp(&self, o: &Sim<T>) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<T: Base> Zero for Sim<T> {
    fn zero() -> Self {
        Sim(T::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<T: Base> One for Sim<T> {
    fn one() -> Self {
        Sim(T::one())
    }
}
impl<T: Base> Num for Sim<T> {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ()> {
        T::from_str_radix(s, r).map(Sim).map_err(|_| ())
    }
}
impl<T: Base> ToPrimitive for Sim<T> {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f32(&self) -> Option<f32> {
        self.0.to_f32()
    }
    fn to_f64(&self) -> Option<f64> {
        self.0.to_f64()
    }
}
impl<T: Base> NumCast for Sim<T> {
    fn from<N: ToPrimitive>(n: N) -> Option<Self> {
        <T as NumCast>::from(n).map(Sim)
    }
}
impl<T: Base> fmt::Debug for Sim<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl<T: Base> fmt::Display for Sim<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl<T: Base> fmt::LowerExp for Sim<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::LowerExp::fmt(&self.0, f)
    }
}
impl<T: Base> fmt::UpperExp for Sim<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::UpperExp::fmt(&self.0, f)
    }
}
impl<T: Base> ScalarOperand for Sim<T> {}
impl<T: Base> Sum for Sim<T> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Sim(T::zero()), |a, b| a + b)
    }
}
impl<'a, T: Base> Sum<&'a Sim<T>> for Sim<T> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Sim(T::zero()), |a, b| a + *b)
    }
}
impl<T: Base> MagnitudeCorrection for Sim<T> {
    fn correction() -> Self {
        Sim(T::corr())
    }
}
impl<T: Base> NdFloat for Sim<T> {}

/// Elementary functions of the maths library are accurate to one unit in the last place only
fn libm<T: Base>(r: T, exact: bool) -> Sim<T> {
    tick(r, |_| {
        if exact {
            0
        } else {
            TL.with(|t| if t.rand() >> 63 == 0 { 1 } else { -1 })
        }
    })
}

macro_rules! exact1 { ($($f:ident),*) => { $(#[inline] fn $f(self) -> Self { Sim(self.0.$f()) })* } }
macro_rules! lib1 { ($($f:ident),*) => { $(fn $f(self) -> Self { libm(self.0.$f(), false) })* } }
macro_rules! pred { ($($f:ident),*) => { $(fn $f(self) -> bool { self.0.$f() })* } }
macro_rules! cst { ($($f:ident),*) => { $(fn $f() -> Self { Sim(T::$f()) })* } }

impl<T: Base> Float for Sim<T> {
    cst!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    pred!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    exact1!(floor, ceil, round, trunc, fract, abs, signum);
    lib1!(exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        tick(self.0.mul_add(a.0, b.0), |_| 0)
    }
    fn recip(self) -> Self {
        Sim(T::one()) / self
    }
    fn powi(self, n: i32) -> Self {
        libm(self.0.powi(n), n.abs() < 2)
    }
    fn powf(self, n: Self) -> Self {
        libm(self.0.powf(n.0), false)
    }
    fn sqrt(self) -> Self {
        tick(self.0.sqrt(), |r| T::sqrt_res(self.0, r))
    }
    fn log(self, b: Self) -> Self {
        libm(self.0.log(b.0), false)
    }
    fn max(self, o: Self) -> Self {
        Sim(self.0.max(o.0))
    }
    fn min(self, o: Self) -> Self {
        Sim(self.0.min(o.0))
    }
    #[allow(deprecated)]
    fn abs_sub(self, o: Self) -> Self {
        Sim(self.0.abs_sub(o.0))
    }
    fn hypot(self, o: Self) -> Self {
        libm(self.0.hypot(o.0), self.0.is_zero() || o.0.is_zero())
    }
    fn atan2(self, o: Self) -> Self {
        libm(self.0.atan2(o.0), false)
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        self.0.integer_decode()
    }
}
