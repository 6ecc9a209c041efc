//! Scalar types a user might supply: an operation counter around a real type, a prime field, rationals.
use crate::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Rem, Sub, SubAssign};

macro_rules! ops {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Add for $t { type Output = Self; fn add(self, o: Self) -> Self { self.add_(o) } }
        impl<$($g)*> Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { self.sub_(o) } }
        impl<$($g)*> Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { self.mul_(o) } }
        impl<$($g)*> Div for $t { type Output = Self; fn div(self, o: Self) -> Self { self.div_(o) } }
        impl<$($g)*> Rem for $t { type Output = Self; fn rem(self, o: Self) -> Self { self.rem_(o) } }
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = self.add_(o) } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = self.sub_(o) } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = self.mul_(o) } }
    };
}
macro_rules! conv {
    ($t:ty, $($p:ty: $from:ident $to:ident),*) => { $(
        impl MixedNumConversion<$p> for $t {
            fn mixed_from_num(n: $p) -> Self { Self::$from(n as _) }
            fn mixed_to_num(&self) -> $p { self.$to() as $p }
        }
    )* };
}

// ---- counted reals ----

thread_local! {
    static COUNT: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(0);
}
pub const BUDGET: &str = "too many scalar operations";
fn tick() {
    COUNT.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        if n > LIMIT.with(|l| l.get()) { panic!("{BUDGET}") }
    })
}
/// Runs `f` with at most `limit` scalar operations; their number, or the panic.
pub fn counted(limit: u64, f: impl FnOnce()) -> Result<u64, String> {
    COUNT.with(|c| c.set(0));
    LIMIT.with(|l| l.set(limit));
    guard(f)?;
    Ok(COUNT.with(|c| c.get()))
}

/// A real type whose operations are counted.
#[derive(Clone, Copy, Debug)]
pub struct N<S>(pub S);
pub trait Base: Sc + MixedReal + MixedOps + MixedZero + MixedOne + MixedAbs {}
impl<S> Base for S where S: Sc + MixedReal + MixedOps + MixedZero + MixedOne + MixedAbs {}

impl<S: Base> N<S> {
    fn add_(self, o: Self) -> Self { tick(); N(self.0 + o.0) }
    fn sub_(self, o: Self) -> Self { tick(); N(self.0 - o.0) }
    fn mul_(self, o: Self) -> Self { tick(); N(self.0 * o.0) }
    fn div_(self, o: Self) -> Self { tick(); N(self.0 / o.0) }
    fn rem_(self, o: Self) -> Self { tick(); N(self.0 % o.0) }
}
ops!([S: Base] N<S>);
impl<S: Base> PartialEq for N<S> { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl<S: Base> PartialOrd for N<S> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) } }
impl<S: Base + Neg<Output = S>> Neg for N<S> { type Output = Self; fn neg(self) -> Self { tick(); N(-self.0) } }
macro_rules! conv_n { ($($p:ty),*) => { $(
    impl<S: Base> MixedNumConversion<$p> for N<S> {
        fn mixed_from_num(n: $p) -> Self { tick(); N(S::mixed_from_num(n)) }
        fn mixed_to_num(&self) -> $p { tick(); self.0.mixed_to_num() }
    }
)* } }
conv_n!(i32, i64, u32, u64, f32, f64);
impl<S: Base> MixedNumConversion<N<S>> for N<S> { fn mixed_from_num(n: N<S>) -> Self { n } fn mixed_to_num(&self) -> N<S> { *self } }
impl<S: Base> MixedNum for N<S> {}
impl<S: Base> MixedOps for N<S> {}
impl<S: Base + Neg<Output = S>> MixedNumSigned for N<S> {}
impl<S: Base> MixedZero for N<S> { fn mixed_zero() -> Self { N(S::mixed_zero()) } }
impl<S: Base> MixedOne for N<S> { fn mixed_one() -> Self { N(S::mixed_one()) } }
impl<S: Base + MixedPi> MixedPi for N<S> { fn mixed_pi() -> Self { N(S::mixed_pi()) } fn mixed_tau() -> Self { N(S::mixed_tau()) } }
impl<S: Base> MixedAbs for N<S> { fn mixed_abs(&self) -> Self { tick(); N(self.0.mixed_abs()) } }
impl<S: Base> MixedPowi for N<S> {
    fn mixed_powi(&self, n: i32) -> Self {
        let mut r = Self::mixed_one();
        for _ in 0..n.unsigned_abs() { r = r * *self }
        if n < 0 { Self::mixed_one() / r } else { r }
    }
}
impl<S: Base> MixedReal for N<S> {
    fn mixed_max_value() -> Self { N(S::mixed_max_value()) }
    fn mixed_min_value() -> Self { N(S::mixed_min_value()) }
    fn mixed_sign(&self) -> Self { tick(); N(self.0.mixed_sign()) }
    fn mixed_is_positive(&self) -> bool { tick(); self.0.mixed_is_positive() }
    fn mixed_is_negative(&self) -> bool { tick(); self.0.mixed_is_negative() }
}
impl<S: Sgn> MixedWrapPhase for N<S> { fn mixed_wrap_phase(&self) -> Self { trigonometry::wrap_phase(*self) } }
impl<S: Sgn> MixedSin for N<S> {
    fn mixed_sin(&self) -> Self { tick(); N(self.0.mixed_sin()) }
    fn mixed_sincos(&self) -> (Self, Self) { tick(); let (s, c) = self.0.mixed_sincos(); (N(s), N(c)) }
    fn mixed_asin(&self) -> Self { tick(); N(self.0.mixed_asin()) }
}
impl<S: Sgn> MixedCos for N<S> {
    fn mixed_cos(&self) -> Self { tick(); N(self.0.mixed_cos()) }
    fn mixed_acos(&self) -> Self { tick(); N(self.0.mixed_acos()) }
}
impl<S: Sgn> MixedAtan for N<S> {
    fn mixed_atan(&self) -> Self { tick(); N(self.0.mixed_atan()) }
    fn mixed_atan2(&self, o: Self) -> Self { tick(); N(self.0.mixed_atan2(o.0)) }
    fn mixed_atan2_poly(&self, o: Self) -> Self { trigonometry::atan::atan2(*self, o) }
}
impl<S: Sgn> MixedTrigonometry for N<S> {}
impl<S: Sgn> MixedSqrt for N<S> {
    fn mixed_sqrt(&self) -> Self { tick(); N(self.0.mixed_sqrt()) }
    fn mixed_niirf(&self) -> Self { trigonometry::sqrt::niirf(*self, 2) }
}
impl<S: Sgn> MixedExp for N<S> { fn mixed_exp(&self) -> Self { tick(); N(self.0.mixed_exp()) } }

// ---- exact scalars ----

/// What the exact scalars need for the reference computations.
pub trait Exact: Copy + PartialEq + std::fmt::Debug + MixedReal + MixedOps + MixedNumSigned + MixedZero + MixedOne + MixedPowi + MixedAbs + MixedSqrt + MixedAtan + MixedTrigonometry + MixedWrapPhase + MixedExp + MixedNumConversion<Self> {
    fn make(w: i128) -> Self;
}

/// The integers modulo 2^31 - 1; -1 is no square there, so its complex extension is a field.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Gf(pub u64);
pub const P: u64 = (1 << 31) - 1;
impl Gf {
    fn add_(self, o: Self) -> Self { Gf((self.0 + o.0) % P) }
    fn sub_(self, o: Self) -> Self { Gf((self.0 + P - o.0) % P) }
    fn mul_(self, o: Self) -> Self { Gf(self.0 * o.0 % P) }
    pub fn pow(self, mut n: u64) -> Self {
        let (mut r, mut b) = (Gf(1), self);
        while n > 0 { if n & 1 == 1 { r = r.mul_(b) } b = b.mul_(b); n >>= 1 }
        r
    }
    fn div_(self, o: Self) -> Self { if o.0 == 0 { panic!("division by zero in the field") } self.mul_(o.pow(P - 2)) }
    fn rem_(self, _: Self) -> Self { Gf(0) }
    fn from_int(n: i128) -> Self { Gf(n.rem_euclid(P as i128) as u64) }
    fn from_float(x: f64) -> Self {
        // Every finite float is an integer over a power of two.
        let (mut m, mut e) = (x, 0u64);
        while m.fract() != 0.0 { m *= 2.0; e += 1 }
        Gf::from_int(m as i128).div_(Gf(2).pow(e))
    }
    fn int(&self) -> i128 { self.0 as i128 }
}
impl Neg for Gf { type Output = Gf; fn neg(self) -> Gf { Gf(0).sub_(self) } }
ops!([] Gf);
conv!(Gf, i32: from_int int, i64: from_int int, u32: from_int int, u64: from_int int, f32: from_float int, f64: from_float int);

/// Rationals; an overflow of the reference's integers is no case.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q(pub i128, pub i128);
pub const BIG: &str = "rational too large";
fn gcd(mut a: u128, mut b: u128) -> u128 { while b != 0 { (a, b) = (b, a % b) } a }
fn ck(v: Option<i128>) -> i128 { v.unwrap_or_else(|| panic!("{BIG}")) }
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 { panic!("division by zero in the rationals") }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128 * d.signum();
        Q(n / g, d / g)
    }
    fn add_(self, o: Self) -> Self { Q::new(ck(ck(self.0.checked_mul(o.1)).checked_add(ck(o.0.checked_mul(self.1)))), ck(self.1.checked_mul(o.1))) }
    fn sub_(self, o: Self) -> Self { self.add_(-o) }
    fn mul_(self, o: Self) -> Self { Q::new(ck(self.0.checked_mul(o.0)), ck(self.1.checked_mul(o.1))) }
    fn div_(self, o: Self) -> Self { Q::new(ck(self.0.checked_mul(o.1)), ck(self.1.checked_mul(o.0))) }
    fn rem_(self, o: Self) -> Self { let q = self.div_(o); self.sub_(o.mul_(Q(q.0 / q.1, 1))) }
    fn from_int(n: i128) -> Self { Q(n, 1) }
    fn from_float(x: f64) -> Self {
        let (mut m, mut e) = (x, 0);
        while m.fract() != 0.0 { m *= 2.0; e += 1 }
        if e > 120 || m.abs() > 1e30 { panic!("{BIG}") }
        Q::new(m as i128, 1i128 << e)
    }
    fn int(&self) -> i128 { self.0 / self.1 }
}
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q(ck(self.0.checked_neg()), self.1) } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { ck(self.0.checked_mul(o.1)).partial_cmp(&ck(o.0.checked_mul(self.1))) } }
ops!([] Q);
conv!(Q, i32: from_int int, i64: from_int int, u32: from_int int, u64: from_int int, f32: from_float int, f64: from_float int);

macro_rules! exact_scalar { ($t:ty, $zero:expr, $one:expr, $max:expr, $k:expr) => {
    impl MixedNumConversion<$t> for $t { fn mixed_from_num(n: $t) -> $t { n } fn mixed_to_num(&self) -> $t { *self } }
    impl MixedNum for $t {}
    impl MixedOps for $t {}
    impl MixedNumSigned for $t {}
    impl MixedZero for $t { fn mixed_zero() -> $t { $zero } }
    impl MixedOne for $t { fn mixed_one() -> $t { $one } }
    impl MixedAbs for $t { fn mixed_abs(&self) -> $t { if *self < $zero { -*self } else { *self } } }
    impl MixedPowi for $t {
        fn mixed_powi(&self, n: i32) -> $t {
            let mut r = $one;
            for _ in 0..n.unsigned_abs() { r = r * *self }
            if n < 0 { $one / r } else { r }
        }
    }
    impl MixedReal for $t {
        fn mixed_max_value() -> $t { $max }
        fn mixed_min_value() -> $t { -$max }
        fn mixed_sign(&self) -> $t { if *self < $zero { -$one } else { $one } }
        fn mixed_is_positive(&self) -> bool { *self > $zero }
        fn mixed_is_negative(&self) -> bool { *self < $zero }
    }
    // The functions of a user's scalar are the user's: any will do, as the library must use these.
    impl MixedWrapPhase for $t { fn mixed_wrap_phase(&self) -> $t { *self } }
    impl MixedSin for $t {
        fn mixed_sin(&self) -> $t { $k(7) * *self + $k(3) }
        fn mixed_sincos(&self) -> ($t, $t) { (self.mixed_sin(), self.mixed_cos()) }
        fn mixed_asin(&self) -> $t { (*self - $k(3)) / $k(7) }
    }
    impl MixedCos for $t {
        fn mixed_cos(&self) -> $t { $k(11) * *self + $k(5) }
        fn mixed_acos(&self) -> $t { (*self - $k(5)) / $k(11) }
    }
    impl MixedAtan for $t {
        fn mixed_atan(&self) -> $t { self.mixed_atan2($one) }
        fn mixed_atan2(&self, x: $t) -> $t { $k(13) * *self + $k(17) * x + $k(1) }
        fn mixed_atan2_poly(&self, x: $t) -> $t { self.mixed_atan2(x) }
    }
    impl MixedTrigonometry for $t {}
    impl MixedSqrt for $t {
        fn mixed_sqrt(&self) -> $t { $k(2) * *self + $k(23) }
        fn mixed_niirf(&self) -> $t { self.mixed_sqrt() }
    }
    impl MixedExp for $t { fn mixed_exp(&self) -> $t { $k(19) * *self + $k(2) } }
} }
exact_scalar!(Gf, Gf(0), Gf(1), Gf(P - 5), |k: u64| Gf(k));
exact_scalar!(Q, Q(0, 1), Q(1, 1), Q(99_999_999, 1), |k: i128| Q(k, 1));
impl Exact for Gf { fn make(w: i128) -> Gf { Gf::from_int(w) } }
impl Exact for Q { fn make(w: i128) -> Q { Q::new(w & 0xff | -(w & 0x80), 1 + (w >> 8 & 15)) } }
