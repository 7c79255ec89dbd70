//! The float types the library is instantiated with: f32, f64 and an instrumented double `Cf` that
//! counts operations, enforces a budget on them and can perturb thread schedules.
use crate::engine::Draw;
use num_traits::{Float, FromPrimitive, Num, NumAssign, NumCast, One, Signed, ToPrimitive, Zero};
use std::fmt::{Debug, Display};
use std::num::FpCategory;
use std::ops::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::{Relaxed, SeqCst}};
use std::sync::Mutex;

/// What every float has, required or not by today's `fnntw::point::Float`: a version of it that asks for more
/// of a float than addition in place is no other behaviour.
pub trait Everyday:
    Float + NumAssign + FromPrimitive + Signed + std::iter::Sum + std::iter::Product + for<'a> std::iter::Sum<&'a Self>
    + for<'a> std::iter::Product<&'a Self> + Default + Debug + Display + Into<f64> + From<f32> + From<i16> + From<u16> + From<u8> + Send + Sync + Unpin + 'static
{
}
impl Everyday for f64 {}
impl Everyday for f32 {}
impl Everyday for Cf {}

pub trait Sc: Everyday {
    const NAME: &'static str;
    /// unit roundoff * 2
    const EPS: f64;
    const MAX: f64;
    /// smallest positive normal number
    const TINY: f64;
    const DIMS: &'static [usize];
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    fn from_b(b: u64) -> Self;
    fn next_up(self) -> Self;
    fn next_down(self) -> Self;
}
impl Sc for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const MAX: f64 = f64::MAX;
    const TINY: f64 = f64::MIN_POSITIVE;
    const DIMS: &'static [usize] = if cfg!(feature = "lite") {
        &[3, 2, 1]
    } else if cfg!(debug_assertions) {
        &[3, 2, 1, 4, 6, 9, 11, 16]
    } else {
        &[3, 2, 1, 4, 5, 8, 7, 20]
    };
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_b(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn next_up(self) -> Self {
        f64::next_up(self)
    }
    fn next_down(self) -> Self {
        f64::next_down(self)
    }
}
impl Sc for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const MAX: f64 = f32::MAX as f64;
    const TINY: f64 = f32::MIN_POSITIVE as f64;
    const DIMS: &'static [usize] = if cfg!(feature = "lite") {
        &[3, 4]
    } else if cfg!(debug_assertions) {
        &[3, 2, 1, 5, 10]
    } else {
        &[3, 2, 1, 6, 12]
    };
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_b(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn next_up(self) -> Self {
        f32::next_up(self)
    }
    fn next_down(self) -> Self {
        f32::next_down(self)
    }
}

pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static PERTURB: AtomicU64 = AtomicU64::new(0);

#[inline]
fn op() {
    let n = OPS.fetch_add(1, Relaxed);
    if n > BUDGET.load(Relaxed) {
        BUDGET.store(u64::MAX, Relaxed); // let the other threads finish... if they do
        panic!("operation budget exceeded");
    }
    let p = PERTURB.load(Relaxed);
    if p != 0 {
        let h = crate::engine::mix(n ^ p);
        if h % 61 == 0 {
            std::thread::yield_now()
        } else if h % 1009 == 1 {
            std::thread::sleep(std::time::Duration::from_micros(h >> 58));
        }
    }
}

/// An adversary against selection (after McIlroy's killer for quicksort): while it is on, a `Cf` is the
/// number of an element whose value is only settled when a comparison needs it, to the disadvantage of
/// whoever compares. All answers are consistent with the values that `Adversary::finish` gives out.
pub struct Adversary {
    val: Vec<i64>,
    low: i64,
    high: i64,
    candidate: usize,
    /// settle at the low end in so many of 256 cases
    lows: u64,
    rng: crate::engine::Rng,
}
const GAS: i64 = i64::MAX / 2;
static ADVERSARY_ON: AtomicBool = AtomicBool::new(false);
static ADVERSARY: Mutex<Option<Adversary>> = Mutex::new(None);
impl Adversary {
    pub fn start(n: usize, lows: u64, seed: u64) {
        *ADVERSARY.lock().unwrap_or_else(|e| e.into_inner()) =
            Some(Adversary { val: vec![GAS; n], low: 0, high: i64::MAX, candidate: 0, lows, rng: crate::engine::Rng::new(seed) });
        ADVERSARY_ON.store(true, SeqCst);
    }
    /// The ranks of all elements
    pub fn finish() -> Vec<f64> {
        ADVERSARY_ON.store(false, SeqCst);
        let a = ADVERSARY.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
        let mut order: Vec<usize> = (0..a.val.len()).collect();
        order.sort_by_key(|&i| a.val[i]);
        let mut rank = vec![0.0; order.len()];
        for (r, i) in order.into_iter().enumerate() {
            rank[i] = r as f64;
        }
        rank
    }
    fn settle(&mut self, i: usize) {
        self.val[i] = if self.rng.below(256) < self.lows {
            self.low += 1;
            self.low
        } else {
            self.high -= 1;
            self.high
        };
    }
    fn cmp(&mut self, x: usize, y: usize) -> std::cmp::Ordering {
        if x == y {
            return std::cmp::Ordering::Equal;
        }
        if self.val[x] == GAS && self.val[y] == GAS {
            self.settle(if x == self.candidate { x } else { y });
        }
        if self.val[x] == GAS {
            self.candidate = x;
        } else if self.val[y] == GAS {
            self.candidate = y;
        }
        self.val[x].cmp(&self.val[y])
    }
}
#[inline]
fn ord(a: f64, b: f64) -> Option<std::cmp::Ordering> {
    op();
    if ADVERSARY_ON.load(Relaxed) {
        if let Some(v) = ADVERSARY.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            return Some(v.cmp(a as usize, b as usize));
        }
    }
    a.partial_cmp(&b)
}

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Cf(pub f64);
impl Debug for Cf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(&self.0, f)
    }
}
impl Display for Cf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl PartialEq for Cf {
    fn eq(&self, o: &Self) -> bool {
        ord(self.0, o.0) == Some(std::cmp::Ordering::Equal)
    }
}
impl PartialOrd for Cf {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        ord(self.0, o.0)
    }
}
macro_rules! bin {
    ($($t:ident $f:ident),*) => {$(impl $t for Cf { type Output = Cf; #[inline] fn $f(self, o: Cf) -> Cf { op(); Cf($t::$f(self.0, o.0)) } })*};
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Cf {
    type Output = Cf;
    fn neg(self) -> Cf {
        Cf(-self.0)
    }
}
macro_rules! assign {
    ($($t:ident $f:ident),*) => {$(impl $t for Cf { #[inline] fn $f(&mut self, o: Cf) { op(); self.0.$f(o.0) } })*};
}
assign!(AddAssign add_assign, SubAssign sub_assign, MulAssign mul_assign, DivAssign div_assign, RemAssign rem_assign);
impl std::iter::Sum for Cf {
    fn sum<I: Iterator<Item = Cf>>(i: I) -> Cf {
        i.fold(Cf(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Cf> for Cf {
    fn sum<I: Iterator<Item = &'a Cf>>(i: I) -> Cf {
        i.fold(Cf(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for Cf {
    fn product<I: Iterator<Item = Cf>>(i: I) -> Cf {
        i.fold(Cf(1.0), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a Cf> for Cf {
    fn product<I: Iterator<Item = &'a Cf>>(i: I) -> Cf {
        i.fold(Cf(1.0), |a, b| a * *b)
    }
}
impl Default for Cf {
    fn default() -> Cf {
        Cf(0.0)
    }
}
macro_rules! from { ($($t:ty),*) => {$(impl From<$t> for Cf { fn from(x: $t) -> Cf { Cf(<f64 as From<$t>>::from(x)) } })*}; }
from!(f32, f64, i16, u16, u8);
impl From<Cf> for f64 {
    fn from(x: Cf) -> f64 {
        x.0
    }
}
impl FromPrimitive for Cf {
    fn from_i64(n: i64) -> Option<Cf> {
        Some(Cf(n as f64))
    }
    fn from_u64(n: u64) -> Option<Cf> {
        Some(Cf(n as f64))
    }
    fn from_f64(n: f64) -> Option<Cf> {
        Some(Cf(n))
    }
}
impl Signed for Cf {
    fn abs(&self) -> Cf {
        Float::abs(*self)
    }
    fn abs_sub(&self, o: &Cf) -> Cf {
        Float::abs_sub(*self, *o)
    }
    fn signum(&self) -> Cf {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        Float::is_sign_positive(*self)
    }
    fn is_negative(&self) -> bool {
        Float::is_sign_negative(*self)
    }
}
impl Zero for Cf {
    fn zero() -> Self {
        Cf(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Cf {
    fn one() -> Self {
        Cf(1.0)
    }
}
impl Num for Cf {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Cf)
    }
}
impl ToPrimitive for Cf {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Cf {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        n.to_f64().map(Cf)
    }
}
macro_rules! un { ($($f:ident),*) => {$(fn $f(self) -> Self { op(); Cf(Float::$f(self.0)) })*}; }
macro_rules! un0 { ($($f:ident),*) => {$(fn $f(self) -> Self { Cf(Float::$f(self.0)) })*}; }
macro_rules! bi { ($($f:ident),*) => {$(fn $f(self, o: Self) -> Self { op(); Cf(Float::$f(self.0, o.0)) })*}; }
macro_rules! pr { ($($f:ident),*) => {$(fn $f(self) -> bool { Float::$f(self.0) })*}; }
macro_rules! co { ($($f:ident),*) => {$(fn $f() -> Self { Cf(<f64 as Float>::$f()) })*}; }
impl Float for Cf {
    co!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    pr!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    un0!(floor, ceil, round, trunc, fract, signum, to_degrees, to_radians);
    un!(abs, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    bi!(powf, log, max, min, hypot, atan2, abs_sub);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        op();
        Cf(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Self {
        op();
        Cf(self.0.powi(n))
    }
    fn sin_cos(self) -> (Self, Self) {
        (Cf(self.0.sin()), Cf(self.0.cos()))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
impl Sc for Cf {
    const NAME: &'static str = "counting f64";
    const EPS: f64 = f64::EPSILON;
    const MAX: f64 = f64::MAX;
    const TINY: f64 = f64::MIN_POSITIVE;
    const DIMS: &'static [usize] = &[3, 2];
    fn of(x: f64) -> Self {
        Cf(x)
    }
    fn f(self) -> f64 {
        self.0
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn from_b(b: u64) -> Self {
        Cf(f64::from_bits(b))
    }
    fn next_up(self) -> Self {
        Cf(self.0.next_up())
    }
    fn next_down(self) -> Self {
        Cf(self.0.next_down())
    }
}
