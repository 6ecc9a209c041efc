//! Generators of words.

use crate::num::{Info, Kind};
use crate::Case;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub type W = BoxedStrategy<i128>;

/// Several words in a fixed order.
pub fn words(v: Vec<W>) -> BoxedStrategy<Case> { v.boxed() }

pub fn pick(v: Vec<i128>) -> W { proptest::sample::select(v).boxed() }
pub fn just(v: i128) -> W { Just(v).boxed() }
pub fn int(lo: i128, hi: i128) -> W { (lo..=hi).boxed() }

/// Integers in lo..=hi: landmarks and their neighbours, uniform, log-uniform magnitudes.
pub fn range(lo: i128, hi: i128, landmarks: Vec<i128>) -> W {
    let mut l: Vec<i128> = landmarks.into_iter().filter(|v| lo <= *v && *v <= hi).collect();
    for v in [0, 1, -1, lo, hi] { if lo <= v && v <= hi { l.push(v) } }
    l.sort();
    l.dedup();
    if l.is_empty() { l.push(lo) }
    let top = 128 - (lo.unsigned_abs() | hi.unsigned_abs()).leading_zeros();
    prop_oneof![
        3 => (proptest::sample::select(l), -3i128..=3).prop_map(move |(v, d)| v.saturating_add(d).clamp(lo, hi)),
        3 => (0..=top, any::<u128>(), any::<bool>()).prop_map(move |(b, r, neg)| {
            let m = if b == 0 { 0 } else { ((r >> 1) >> (127 - b.min(127))) as i128 };
            let v = if neg { -m } else { m };
            if lo <= v && v <= hi { v } else if lo <= -v && -v <= hi { -v } else { v.clamp(lo, hi) }
        }),
        4 => lo..=hi,
    ]
    .boxed()
}

pub const F64_SPECIAL: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 4.0, 0.25, 10.0, 100.0, -3.0, 1.5, -1.5, 0.75,
    std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2,
    std::f64::consts::FRAC_PI_4, -std::f64::consts::FRAC_PI_4, std::f64::consts::TAU, -std::f64::consts::TAU,
    3.0 * std::f64::consts::FRAC_PI_4, 3.0 * std::f64::consts::FRAC_PI_2, std::f64::consts::E, std::f64::consts::LN_2,
    std::f64::consts::SQRT_2, 1e-3, 1e-10, 1e10, 1e15, 1e20, 1e-20, 1e100, 1e-100, 1e300, 1e-300, 88.0, -88.0, 709.0, -709.0, 745.0,
    20.0, -20.0, 38.0, 308.0, 127.0, 128.0, 1023.0, 1024.0, 16777216.0, 9007199254740992.0, 4503599627370496.0,
    f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, 5e-324, f64::INFINITY, f64::NEG_INFINITY,
];

fn f64_of(b: i128) -> f64 { f64::from_bits(b as u64) }
fn w64(x: f64) -> i128 { x.to_bits() as i128 }
fn w32(x: f32) -> i128 { x.to_bits() as i128 }

/// Any f64, non-finite ones included.
pub fn f64_any() -> W {
    let mut sp: Vec<f64> = F64_SPECIAL.to_vec();
    sp.push(f64::NAN);
    prop_oneof![
        4 => (proptest::sample::select(sp), -2i64..=2).prop_map(|(x, d)| if x.is_nan() { w64(x) } else { (x.to_bits() as i64).wrapping_add(d) as u64 as i128 }),
        3 => (-40i32..40, 0u64..(1 << 52), any::<bool>()).prop_map(|(e, m, s)| ((s as u64) << 63 | ((e + 1023) as u64) << 52 | m) as i128),
        2 => (-200i64..200, 0u32..4).prop_map(|(k, s)| w64(k as f64 / [1.0, 2.0, 8.0, 10.0][s as usize])),
        3 => any::<u64>().prop_map(|b| b as i128),
        3 => (-10.0f64..10.0).prop_map(w64),
    ].boxed()
}
pub fn f32_any() -> W {
    let mut sp: Vec<f32> = F64_SPECIAL.iter().map(|x| *x as f32).collect();
    sp.extend([f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, f32::INFINITY, f32::NEG_INFINITY]);
    prop_oneof![
        4 => (proptest::sample::select(sp), -2i32..=2).prop_map(|(x, d)| if x.is_nan() { w32(x) } else { (x.to_bits() as i32).wrapping_add(d) as u32 as i128 }),
        3 => (-30i32..30, 0u32..(1 << 23), any::<bool>()).prop_map(|(e, m, s)| ((s as u32) << 31 | ((e + 127) as u32) << 23 | m) as i128),
        2 => (-200i64..200, 0u32..4).prop_map(|(k, s)| w32(k as f32 / [1.0, 2.0, 8.0, 10.0][s as usize])),
        3 => any::<u32>().prop_map(|b| b as i128),
        3 => (-10.0f32..10.0).prop_map(w32),
    ].boxed()
}
/// Finite floats with magnitude 0 or 2^-e ..= 2^e.
pub fn float_mid(i: &Info, e: i32) -> W {
    let sp: Vec<f64> = F64_SPECIAL.iter().cloned().filter(|x| *x == 0.0 || (x.is_finite() && x.abs() < (e as f64).exp2() && x.abs() > (-e as f64).exp2())).collect();
    let f32t = i.kind == Kind::F32;
    let done = move |x: f64| if f32t { w32(x as f32) } else { w64(x) };
    prop_oneof![
        3 => proptest::sample::select(sp).prop_map(done),
        2 => (-64i64..64, 0u32..3).prop_map(move |(k, s)| done(k as f64 / [1.0, 2.0, 8.0][s as usize])),
        3 => (-10.0f64..10.0).prop_map(done),
        3 => (-(e.min(12))..e.min(12), 0u64..(1 << 52), any::<bool>()).prop_map(move |(e, m, s)| done(f64_of(((s as u64) << 63 | ((e + 1023) as u64) << 52 | m) as i128))),
        2 => (-e..e, 0u64..(1 << 52), any::<bool>()).prop_map(move |(e, m, s)| done(f64_of(((s as u64) << 63 | ((e + 1023) as u64) << 52 | m) as i128))),
    ].boxed()
}
/// Floats in lo..=hi.
pub fn float_range(i: &Info, lo: f64, hi: f64, landmarks: Vec<f64>) -> W {
    let f32t = i.kind == Kind::F32;
    let done = move |x: f64| {
        let x = x.clamp(lo, hi);
        if f32t { w32(x as f32) } else { w64(x) }
    };
    let mut l: Vec<f64> = landmarks.into_iter().chain(F64_SPECIAL.iter().cloned()).filter(|x| lo <= *x && *x <= hi).collect();
    l.extend([lo, hi]);
    let top = lo.abs().max(hi.abs()).log2().ceil() as i32;
    prop_oneof![
        3 => (proptest::sample::select(l), -2i32..=2).prop_map(move |(x, d)| {
            // Neighbouring floats of the landmark, in the type's own spacing.
            let y = if f32t {
                let b = x as f32;
                if b == 0.0 { b as f64 } else { f32::from_bits((b.to_bits() as i32 + d) as u32) as f64 }
            } else if x == 0.0 { x } else { f64::from_bits((x.to_bits() as i64 + d as i64) as u64) };
            done(if y.is_finite() { y } else { x })
        }),
        4 => (lo..=hi).prop_map(done),
        2 => (top - 40..=top, 0u64..(1 << 52), any::<bool>()).prop_map(move |(e, m, s)| {
            let v = f64_of((((e + 1023) as u64) << 52 | m) as i128);
            done(if s { -v } else { v })
        }),
    ].boxed()
}

/// Landmark words of a fixed-point type.
pub fn fx_landmarks(i: &Info) -> Vec<i128> {
    let one = i.one();
    let mut v = vec![0, 1, i.min(), i.max(), i.min() + 1, i.max() - 1, i.max() / 2, i.min() / 2];
    for k in 0..i.bits.min(127) { v.push(1i128 << k); if i.signed { v.push(-(1i128 << k)) } }
    for k in 1..=8i128 { for d in [1i128, 2, 4, 16] { v.push(one * k / d); if i.signed { v.push(-one * k / d) } } }
    for k in 1..=12 { let p = i.w(k as f64 * crate::num::PI / 4.0); v.push(p); if i.signed { v.push(-p) } }
    v.retain(|w| i.fits(*w));
    v.sort();
    v.dedup();
    v
}
/// Any word of an integer or fixed-point type.
pub fn fx_any(i: &Info) -> W { fx_range(i, i.min(), i.max()) }
pub fn fx_range(i: &Info, lo: i128, hi: i128) -> W { range(lo, hi, fx_landmarks(i)) }

/// Any word of any type.
pub fn any_word(i: &Info) -> W {
    match i.kind {
        Kind::F32 => f32_any(),
        Kind::F64 => f64_any(),
        Kind::Int if i.bits == 128 && !i.signed => prop_oneof![
            2 => range(0, i128::MAX, (0..127).map(|k| 1i128 << k).collect()),
            1 => any::<u128>().prop_map(|v| v as i128),
            1 => (0i128..4).prop_map(|d| (u128::MAX - d as u128) as i128),
        ].boxed(),
        _ => fx_any(i),
    }
}

/// The negated word of a signed type, or the word itself where the negation is not representable.
pub fn negated(i: &Info, w: i128) -> i128 {
    match i.kind {
        Kind::F32 => w ^ 1 << 31,
        Kind::F64 => w ^ 1 << 63,
        _ if i.signed && w != i.min() => -w,
        _ => w,
    }
}
/// Cases in which some of the words at `pos` (all of type `i`) depend on each other: equal, opposite, neighbours,
/// zero or one; of four words also the second pair equal, opposite, conjugate or swapped with respect to the first.
pub fn related(i: &Info, pos: &'static [usize], s: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    let i = *i;
    let one = if i.is_float() { i.w(1.0) } else { i.one().min(i.max()) };
    let rel = prop_oneof![
        3 => Just(vec![]),
        1 => proptest::collection::vec((0u8..14, any::<prop::sample::Index>(), any::<prop::sample::Index>()), 1..3),
    ];
    (s, rel).prop_map(move |(mut c, rel)| {
        for (op, a, b) in rel {
            let (a, b) = (pos[a.index(pos.len())], pos[b.index(pos.len())]);
            match op {
                0 | 1 => c[a] = c[b],
                2 | 3 => c[a] = negated(&i, c[b]),
                4 => c[a] = 0,
                5 => c[a] = one,
                6 => c[a] = negated(&i, one),
                7 if !i.is_float() => c[a] = c[b].saturating_add(1).min(i.max()),
                _ if pos.len() < 4 => c[a] = c[b],
                op => {
                    let (x, y) = (c[pos[0]], c[pos[1]]);
                    let (u, v) = match op {
                        7 | 8 => (x, y),
                        9 => (negated(&i, x), negated(&i, y)),
                        10 => (x, negated(&i, y)),
                        11 => (y, x),
                        12 => (negated(&i, y), x),
                        _ => (y, negated(&i, x)),
                    };
                    c[pos[2]] = u;
                    c[pos[3]] = v;
                }
            }
        }
        c
    }).boxed()
}
