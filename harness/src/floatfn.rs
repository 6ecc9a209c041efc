//! Float functions against glibc in double precision.
use crate::*;

pub struct Fun {
    pub name: &'static str,
    pub two: bool,
    pub s: fn(f32, f32) -> f32,
    pub d: fn(f64, f64) -> f64,
    pub r: fn(f64, f64) -> f64,
    /// Allowed distance in units in the last place: f32, f64. Zero: exactly rounded.
    pub tol: (f64, f64),
}

/// `want` is the mathematical value to about one unit of double precision.
fn judge(want: f64, got: f64, single: bool, tol: f64) -> Result<(bool, &'static str, f64), String> {
    let w = if single { want as f32 as f64 } else { want };
    let big = if single { f32::MAX as f64 } else { f64::MAX };
    if want.is_nan() || want.is_infinite() || want == 0.0 {
        if same64(want, got) { return Ok((false, if want.is_nan() { "not a number" } else if want == 0.0 { "zero" } else { "infinite" }, 0.0)) }
        // Overflow and underflow of double precision, not a pole or an exact zero, may be off at the edge.
        if !single && tol > 0.0 && want.is_infinite() && got == big.copysign(want) { return Ok((false, "overflow edge", 0.0)) }
        if !single && tol > 0.0 && want == 0.0 && got.abs() <= tol * 5e-324 && got.is_sign_negative() == want.is_sign_negative() && got != 0.0 { return Ok((false, "underflow edge", 0.0)) }
        return Err(format!("is {got:?}, should be {want:?}"));
    }
    if same64(w, got) { return Ok((true, "correctly rounded", 0.0)) }
    if tol == 0.0 || got.is_nan() { return Err(format!("is {got:?}, should be {w:?}")) }
    if got.is_sign_negative() != want.is_sign_negative() { return Err(format!("is {got:?}, should be {w:?}: sign")) }
    let u = if single { ulp32(want) } else { ulp64(want) };
    if got.is_infinite() {
        return if want.abs() >= big - tol * ulp64(big).max(if single { ulp32(big) } else { 0.0 }) { Ok((false, "overflow edge", 0.0)) } else { Err(format!("is {got:?}, should be {w:?}")) };
    }
    if w.is_infinite() && want.abs() > big + tol * u { return Err(format!("is {got:?}, should be {w:?}")) }
    let e = (got - want).abs() / u;
    if !(e <= tol) { return Err(format!("is {got:?}, should be {want:?}: {e:.2} units in the last place off, allowed {tol}")) }
    Ok((true, "within a few units", e / tol))
}

pub fn cover(f: Fun, quick: u64, subs: &mut Vec<Sub>) {
    let Fun { name, two, s, d, r, tol } = f;
    // The library does not tell signalling from quiet NaNs.
    let q = |v: f64| if v.is_nan() { f64::NAN } else { v };
    let r = move |x: f64, y: f64| r(q(x), q(y));
    // f32: a permuted enumeration of all words for one argument.
    let c32 = move |c: &[i128]| {
        let (x, y) = (f32::from_bits(c[0] as u32), f32::from_bits(*c.get(1).unwrap_or(&0) as u32));
        match judge(r(x as f64, y as f64), s(x, y) as f64, true, tol.0) {
            Ok((n, c, q)) => pass_r(n, c, q),
            Err(e) => Verdict::Fail(format!("{name}({x:?}{}) {e}", if two { format!(", {y:?}") } else { String::new() })),
        }
    };
    let c64 = move |c: &[i128]| {
        let (x, y) = (f64::from_bits(c[0] as u64), f64::from_bits(*c.get(1).unwrap_or(&0) as u64));
        match judge(r(x, y), d(x, y), false, tol.1) {
            Ok((n, c, q)) => pass_r(n, c, q),
            Err(e) => Verdict::Fail(format!("{name}({x:?}{}) {e}", if two { format!(", {y:?}") } else { String::new() })),
        }
    };
    let s32 = Sub::new(format!("{name} f32"), c32).show(show_words(<f32 as Sc>::I));
    let s64 = Sub::new(format!("{name} f64"), c64).show(show_words(<f64 as Sc>::I));
    let close = move |i: Info| move || {
        // Arguments near each other, near one and with moderate exponents.
        let m = gen::float_mid(&i, 8);
        let a = gen::any_word(&i);
        let n = (gen::any_word(&i), -3i128..=3).prop_map(|(w, k)| vec![w, w + k]).boxed();
        if two { kit::union(vec![(2, gen::words(vec![m.clone(), m.clone()])), (2, gen::words(vec![a.clone(), m.clone()])), (1, gen::words(vec![m, a.clone()])), (1, n), (2, gen::words(vec![a.clone(), a]))]) }
        else { kit::union(vec![(2, gen::words(vec![m])), (3, gen::words(vec![a]))]) }
    };
    let s32 = s32.gen(quick, quick * DEEP, close(<f32 as Sc>::I));
    subs.push(if two { s32 } else { s32.sweep(1 << 24, |k, c| c.push(cover32(k))).deep(1 << 28) });
    let s64 = s64.gen(2 * quick, 4 * quick * DEEP, close(<f64 as Sc>::I));
    subs.push(if two { s64 } else { s64.sweep(1 << 24, |k, c| c.push(cover64(k))).deep(1 << 28) });
}
/// The k-th of an even cover of the words of f32.
pub fn cover32(k: u64) -> i128 { (k as u32).wrapping_mul(0x9E3779B1) as i128 }
/// The k-th of an even cover of the words of f64, of all exponents and, more closely, of those from -24 to 23.
pub fn cover64(k: u64) -> i128 {
    let h = (k >> 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (if k & 1 == 0 { h } else { h & 1 << 63 | ((h << 1) / 0x0555_5555_5555_5556 + 1023 - 24) << 52 | (h.wrapping_mul(0xD6E8_FEB8_6659_FD93) >> 12) }) as i128
}
