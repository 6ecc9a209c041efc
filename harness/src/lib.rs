//! Scalar types under test and helpers shared by the properties.

#[macro_use]
mod types;
pub mod floatfn;
pub mod user;

pub use kit::gen;
pub use kit::num::*;
pub use kit::{fail, guard, pass, pass_r, Case, Finding, Property, Sub, Verdict};
pub use mixed_num::*;
pub use kit::num::c as libc;

/// A scalar type of the library, its values exchanged as words.
pub trait Sc: Copy + PartialOrd + std::fmt::Debug + 'static {
    const I: Info;
    fn w(self) -> i128;
    fn v(w: i128) -> Self;
}
impl Sc for f32 {
    const I: Info = Info { name: "f32", kind: Kind::F32, bits: 32, frac: 0, signed: true };
    fn w(self) -> i128 { self.to_bits() as i128 }
    fn v(w: i128) -> f32 { f32::from_bits(w as u32) }
}
impl Sc for f64 {
    const I: Info = Info { name: "f64", kind: Kind::F64, bits: 64, frac: 0, signed: true };
    fn w(self) -> i128 { self.to_bits() as i128 }
    fn v(w: i128) -> f64 { f64::from_bits(w as u64) }
}
macro_rules! sc_int {
    ($t:ty, $n:expr, $b:expr, $s:expr) => {
        impl Sc for $t {
            const I: Info = Info { name: $n, kind: Kind::Int, bits: $b, frac: 0, signed: $s };
            fn w(self) -> i128 { self as i128 }
            fn v(w: i128) -> $t { w as $t }
        }
    };
}
signed_int!(sc_int);
unsigned_int!(sc_int);
macro_rules! sc_fx {
    ($t:ty, $n:expr, $b:expr, $f:expr, $s:expr) => {
        impl Sc for $t {
            const I: Info = Info { name: $n, kind: Kind::Fx, bits: $b, frac: $f, signed: $s };
            fn w(self) -> i128 { self.to_bits() as i128 }
            fn v(w: i128) -> $t { <$t>::from_bits(w as _) }
        }
    };
}
signed_fixed!(sc_fx);
unsigned_fixed!(sc_fx);

/// Signed reals with the whole function set: floats and signed fixed point.
pub trait Sgn:
    Sc + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedWrapPhase
    + MixedTrigonometry + MixedSqrt + MixedExp + std::fmt::Display
{
}
impl<T> Sgn for T where
    T: Sc + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedPi + MixedAbs + MixedPowi + MixedWrapPhase
        + MixedTrigonometry + MixedSqrt + MixedExp + std::fmt::Display
{
}
/// Signed scalars with arithmetic: floats, signed fixed point and signed integers.
pub trait Arith:
    Sc + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedAbs + MixedPowi + std::fmt::Display
{
}
impl<T> Arith for T where
    T: Sc + MixedReal + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedAbs + MixedPowi + std::fmt::Display
{
}

/// Calls `$m!(type, ...)` for f32, f64 and every signed fixed-point type.
#[macro_export]
macro_rules! signed_reals {
    ($m:ident) => {
        $m!(f32, "f32", 32, 0, true);
        $m!(f64, "f64", 64, 0, true);
        $crate::signed_fixed!($m);
    };
}

pub fn cw<T: Sc>(c: Cartesian<T>) -> (i128, i128) { (c.re.w(), c.im.w()) }
pub fn pw<T: Sc>(c: Polar<T>) -> (i128, i128) { (c.mag.w(), c.ang.w()) }
pub fn cv<T: Sc>(re: i128, im: i128) -> Cartesian<T> { Cartesian { re: T::v(re), im: T::v(im) } }
pub fn pv<T: Sc>(m: i128, a: i128) -> Polar<T> { Polar { mag: T::v(m), ang: T::v(a) } }

pub fn show_words(i: Info) -> impl Fn(&[i128]) -> String + Send + Sync + 'static {
    move |c| format!("{}: {}", i.name, c.iter().map(|w| i.show(*w)).collect::<Vec<_>>().join(", "))
}
/// The value a pair of words stands for, as text.
pub fn show2(i: &Info, p: (i128, i128)) -> String { format!("({}, {})", i.show(p.0), i.show(p.1)) }
pub fn same2(i: &Info, a: (i128, i128), b: (i128, i128)) -> bool { same(i, a.0, b.0) && same(i, a.1, b.1) }

/// Sub-check sizes scale with this in the thorough tier.
pub const DEEP: u64 = 60;

pub use kit::Strategy;
pub use kit::BoxedStrategy;
pub use gen::W;
/// Words in any proportion of two generators.
pub fn mix(a: u32, x: W, b: u32, y: W) -> W {
    kit::prop_oneof![a => x, b => y].boxed()
}

/// Any finite or other word for integers and fixed point, moderate values for floats: operands for products.
pub fn factor(i: &Info) -> W {
    match i.kind {
        Kind::F32 => gen::float_mid(i, 30),
        Kind::F64 => gen::float_mid(i, 200),
        _ => {
            // Words whose product fits: |w| <= 2^((bits-1+frac)/2).
            let e = (i.bits - 2 + i.frac) / 2;
            let lim = (1i128 << e.min(126)).min(i.max());
            mix(3, gen::fx_range(i, if i.signed { -lim } else { 0 }, lim), 2, gen::fx_any(i))
        }
    }
}

/// Floor and ceiling of p * 2^-frac.
pub fn fl(p: i128, frac: u32) -> i128 { p >> frac }
pub fn cl(p: i128, frac: u32) -> i128 { (p >> frac) + (p & ((1i128 << frac) - 1) != 0) as i128 }
/// Floor and ceiling of a/b.
pub fn div_fl(a: i128, b: i128) -> i128 { let q = a / b; if a % b != 0 && ((a < 0) != (b < 0)) { q - 1 } else { q } }
pub fn div_cl(a: i128, b: i128) -> i128 { let q = a / b; if a % b != 0 && ((a < 0) == (b < 0)) { q + 1 } else { q } }

/// Rounding unit of a float type (the spacing just above 1).
pub fn eps(i: &Info) -> f64 { if i.kind == Kind::F32 { f32::EPSILON as f64 } else { f64::EPSILON } }
/// Smallest positive value of a float type.
pub fn tiny(i: &Info) -> f64 { if i.kind == Kind::F32 { f32::from_bits(1) as f64 } else { f64::from_bits(1) } }
pub fn huge(i: &Info) -> f64 { if i.kind == Kind::F32 { f32::MAX as f64 } else { f64::MAX } }

/// Sub-check of a unary fixed-point function: every word of the 8- and 16-bit types, generated ones of wider types.
pub fn unary_fixed<F: Copy + Send + Sync + 'static>(
    name: &str, i: Info, f: F, check: fn(Info, F, &[i128]) -> Verdict, range: Option<(i128, i128)>, n: u64, out: &mut Vec<Sub>,
) {
    let (lo, hi) = range.unwrap_or((i.min(), i.max()));
    let (lo, hi) = (lo.max(i.min()), hi.min(i.max()));
    let s = Sub::new(format!("{name} {}", i.name), move |c| check(i, f, c)).show(show_words(i));
    out.push(if i.bits <= 16 {
        s.sweep((hi - lo + 1) as u64, move |k, c| c.push(lo + k as i128))
    } else {
        s.gen(n, n * DEEP, move || gen::words(vec![gen::fx_range(&i, lo, hi)]))
    });
}

// Accuracy of the fixed-point functions in resolution steps: measured maxima over all 8- and 16-bit words and
// long random runs with a margin. They grow linearly with the number of fractional bits (one rounding per
// iteration); the library's double-precision constants show in types with more than about 52 fractional bits.
pub fn dbl(i: &Info) -> f64 { exp2i(i.frac as i32 - 52) }
pub fn sincos_tol(i: &Info) -> f64 { if i.frac < 12 { 1.5 + 1.05 * i.frac as f64 } else { 5.0 + i.frac as f64 + dbl(i) } }
/// Exact square root of the absolute value of a word.
pub fn root(i: &Info, w: i128) -> DD { (if i.is_float() { DD::new(i.f(w)) } else { i.dd(w) }).abs().sqrt() }
/// Error of a NIIRF root, the tolerance, both on the normalised scale, and the normalised argument.
pub fn niirf_error(i: &Info, w: i128, r: i128) -> (f64, f64, f64) {
    let mut m = i.f(w).abs();
    let mut n = 0;
    while m < 0.25 { m *= 4.0; n -= 1 }
    while m >= 1.0 { m /= 4.0; n += 1 }
    let s = root(i, w);
    let got = if i.is_float() { DD::new(i.f(r)) } else { i.dd(r) };
    let e = got.sub(s).f().abs() / exp2i(n);
    (e, niirf_tol(i, n), m)
}
/// The part of the error that is the method's with k iterations: each takes it down to a tenth or less.
pub fn niirf_method(k: i128) -> f64 { if k < 2 { 0.02085 } else { 5e-4 * 10f64.powi(2 - k as i32) } }
pub fn niirf_tol(i: &Info, n: i32) -> f64 {
    if i.is_float() { return 5e-4 + 8.0 * eps(i) + 2.0 * tiny(i) / exp2i(n) }
    5e-4 + 2.5 * i.ulp() + i.ulp() / exp2i(n)
}
/// The error two iterations are known to reach beyond the documented 5e-4, above four of the table's boundaries.
pub fn niirf_known(i: &Info, m: f64) -> f64 {
    let slack = if i.is_float() { 1e-6 } else { 4.0 * i.ulp() };
    for (lo, hi, e) in [(0.4375, 0.4459, 6.14e-4), (0.5, 0.5115, 7.02e-4), (0.5625, 0.572, 6.71e-4), (0.625, 0.629, 5.67e-4)] {
        if lo - slack <= m && m <= hi + slack { return e }
    }
    5e-4
}
pub fn acos_tol(i: &Info) -> f64 { 1.8 * i.frac as f64 + if i.frac < 14 { 3.0 } else { 8.0 + dbl(i) } }
pub fn atan_tol(i: &Info) -> f64 { if i.frac < 14 { 2.2 + 0.85 * i.frac as f64 } else { 12.0 + 0.35 * i.frac as f64 + dbl(i) } }
pub fn exp_tol(i: &Info, x: f64, want: f64) -> f64 { (1.5 + 0.55 * i.frac as f64 + 8.0 * dbl(i)) * want.max(1.0) * (1.0 + x.max(0.0)) }

/// Exact value of a word of any type (floats must be finite).
pub fn exact(i: &Info, w: i128) -> DD { if i.is_float() { DD::new(i.f(w)) } else { i.dd(w) } }
/// Distance of a word from a reference.
pub fn off(i: &Info, w: i128, want: DD) -> f64 { exact(i, w).sub(want).f().abs() }
/// The type's resolution near a value.
pub fn res(i: &Info, at: f64) -> f64 { if i.is_float() { eps(i) * at.abs() + tiny(i) } else { i.ulp() } }
/// Largest value of the type.
pub fn top(i: &Info) -> f64 { if i.is_float() { huge(i) } else { i.maxf() } }
pub fn turns(a: f64) -> f64 { if a.abs() < PI { 0.0 } else { (a.abs() / (2.0 * PI)).ceil() } }

/// Error of a computed magnitude, the exact squared magnitude being `m2`.
pub fn mag_err(i: &Info, m2: f64) -> f64 {
    let m = m2.sqrt();
    if i.is_float() { return 3.0 * res(i, m) }
    if m2 == 0.0 { return 0.0 }
    let (mut x, mut n) = (m2, 0);
    while x < 0.25 { x *= 4.0; n -= 1 }
    while x >= 1.0 { x /= 4.0; n += 1 }
    1.02 * exp2i(n) * (niirf_tol(i, n) + 2.1e-4) + i.ulp() + (2.0 * i.ulp()).sqrt().min(2.0 * i.ulp() / m)
}
/// Error of a computed angle, in radians.
pub fn arg_err(i: &Info) -> f64 { if i.is_float() { 4.0 * eps(i) } else { atan_tol(i) * i.ulp() } }
/// Error of each part of a polar number converted to cartesian form.
pub fn polar_err(i: &Info, m: f64, a: f64) -> f64 {
    let m = m.abs();
    if i.is_float() { m * (eps(i) * (4.0 + 2.0 * a.abs())) + 4.0 * tiny(i) }
    else { m * (i.ulp() * sincos_tol(i) + 2.0 * turns(a) * i.ulp().max(1.3e-16)) + i.ulp() }
}
pub fn phasor(m: DD, a: DD) -> (DD, DD) { let (s, c) = a.sin_cos(); (m.mul(c), m.mul(s)) }
/// Angles: any word for fixed point, moderate ones for floats.
pub fn angle(i: &Info) -> W {
    if i.is_float() { mix(3, gen::float_range(i, -7.0, 7.0, vec![]), 1, gen::float_range(i, -1e4, 1e4, vec![])) }
    else {
        let tau = i.w(2.0 * PI);
        mix(2, gen::fx_range(i, -tau.min(i.max()), tau), 1, gen::fx_any(i))
    }
}
/// Parts of a complex number whose squared magnitude is representable, most of the time.
pub fn part(i: &Info) -> W {
    match i.kind {
        Kind::F32 => gen::float_mid(i, 40),
        Kind::F64 => gen::float_mid(i, 300),
        _ => {
            // |w|^2 / 2^frac <= max/2
            let lim = i.w((i.maxf() / 2.0).sqrt()).max(1);
            mix(5, gen::fx_range(i, -lim, lim), 1, gen::fx_any(i))
        }
    }
}
/// Exact squared magnitude of a pair of words.
pub fn norm2(i: &Info, re: i128, im: i128) -> DD {
    let (a, b) = (exact(i, re), exact(i, im));
    a.mul(a).add(b.mul(b))
}
/// The squared magnitude, rounded up, fits the type and does not underflow in floats.
pub fn norm_fits(i: &Info, re: i128, im: i128) -> bool {
    let n = norm2(i, re, im).f();
    if i.is_float() {
        n < top(i) / 4.0 && (n == 0.0 || n > if i.kind == Kind::F32 { 1e-30 } else { 1e-280 })
    } else { n + 2.0 * i.ulp() < top(i) && re != i.min() && im != i.min() }
}

/// The primitive types every real converts from and to.
pub const PRIMS: [Info; 14] = [
    <f32 as Sc>::I, <f64 as Sc>::I, <i8 as Sc>::I, <i16 as Sc>::I, <i32 as Sc>::I, <i64 as Sc>::I, <i128 as Sc>::I, <isize as Sc>::I,
    <u8 as Sc>::I, <u16 as Sc>::I, <u32 as Sc>::I, <u64 as Sc>::I, <u128 as Sc>::I, <usize as Sc>::I,
];
/// Converts from and to every primitive type.
pub trait Conversions: MixedNumConversion<f32> + MixedNumConversion<f64> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> {}
impl<T> Conversions for T where T: MixedNumConversion<f32> + MixedNumConversion<f64> + MixedNumConversion<i8> + MixedNumConversion<i16> + MixedNumConversion<i32> + MixedNumConversion<i64> + MixedNumConversion<i128> + MixedNumConversion<isize> + MixedNumConversion<u8> + MixedNumConversion<u16> + MixedNumConversion<u32> + MixedNumConversion<u64> + MixedNumConversion<u128> + MixedNumConversion<usize> {}
/// Calls `$m!` for the types of `PRIMS`, in that order, as an array.
#[macro_export]
macro_rules! prims { ($m:ident, $t:ty) => { [$m::<$t, f32>, $m::<$t, f64>, $m::<$t, i8>, $m::<$t, i16>, $m::<$t, i32>, $m::<$t, i64>, $m::<$t, i128>, $m::<$t, isize>, $m::<$t, u8>, $m::<$t, u16>, $m::<$t, u32>, $m::<$t, u64>, $m::<$t, u128>, $m::<$t, usize>] } }

/// The word a conversion must give: Rust's casts between primitive types; for fixed point the nearest word of a
/// float, the exact word of an integer, the floor for integers, the nearest float. None where fixed point cannot hold it.
pub fn convert(from: &Info, to: &Info, w: i128) -> Option<i128> {
    use Kind::*;
    let wide = from.bits == 128 && !from.signed;
    let as_f = |x: f64| if to.kind == F32 { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 };
    Some(match (from.kind, to.kind) {
        (F32, F64) | (F32, F32) | (F64, F32) | (F64, F64) => as_f(from.f(w)),
        (F32 | F64, Int) => {
            let x = from.f(w);
            if to.bits == 128 && !to.signed { x as u128 as i128 } else { (x as i128).clamp(to.min(), to.max()) }
        }
        (F32 | F64, Fx) => return float_to_fx(from.f(w), to),
        (Int, F32) => (if wide { w as u128 as f32 } else { w as f32 }).to_bits() as i128,
        (Int, F64) => (if wide { w as u128 as f64 } else { w as f64 }).to_bits() as i128,
        (Int, Int) => {
            if to.bits == 128 { w } else {
                let m = w & ((1i128 << to.bits) - 1);
                if to.signed && m >> (to.bits - 1) != 0 { m - (1i128 << to.bits) } else { m }
            }
        }
        (Int, Fx) => return int_to_fx(w, wide, to),
        (Fx, Int) => return fx_to_int(w, from, to),
        (Fx, F32) => fx_to_f32(w, from).to_bits() as i128,
        (Fx, F64) => fx_to_f64(w, from).to_bits() as i128,
        (Fx, Fx) => return None,
    })
}
/// Words of a primitive type near the values a type can hold.
pub fn near(p: Info, t: Info) -> W {
    let any = gen::any_word(&p);
    let (lo, hi) = (t.min() >> t.frac, t.max() >> t.frac);
    match p.kind {
        Kind::Int => {
            if p.max() < lo || hi < p.min() { return any }
            let (lo, hi) = (lo.saturating_sub(2).max(p.min()), hi.saturating_add(2).min(p.max()));
            mix(3, gen::range(lo, hi, (0..127).map(|k| 1i128 << k).collect()), 1, any)
        }
        _ => {
            let f32t = p.kind == Kind::F32;
            // A word of the type and a few sixteenths of a resolution step.
            let r = (if t.is_float() { any.clone() } else { gen::fx_any(&t) }, -16i32..=16)
                .prop_map(move |(w, d)| {
                    let x = t.f(w) + if t.is_float() { 0.0 } else { d as f64 * t.ulp() / 16.0 };
                    if f32t { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 }
                })
                .boxed();
            mix(3, r, 1, any)
        }
    }
}
