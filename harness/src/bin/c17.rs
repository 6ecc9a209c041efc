//! C17: integer powers.
use props::*;

type F = fn(i128, i32) -> i128;
/// The free function, for non-negative exponents.
type G = fn(i128, usize) -> i128;
fn f<T: Sc + MixedPowi>(w: i128, n: i32) -> i128 { T::v(w).mixed_powi(n).w() }
fn g<T: Sc + MixedNum + MixedOps>(w: i128, n: usize) -> i128 { trigonometry::powi(T::v(w), n).w() }

fn int_power(i: &Info, w: i128, n: u32) -> Option<i128> {
    if i.bits == 128 && !i.signed { return (w as u128).checked_pow(n).map(|v| v as i128) }
    w.checked_pow(n).filter(|v| i.fits(*v))
}
/// Error of a power n of a fixed-point value below `x` in magnitude by products each off by less than a step, in whatever
/// order: an intermediate power k enters at most n/k times, by repeated multiplication once.
fn product_error(x: f64, n: u32, u: f64) -> f64 {
    let mut e = 0.0;
    if u == 0.0 { return 0.0 }
    for k in 2..=n { e = e * x + u * (n as f64 / k as f64); if e > 1e300 { break } }
    e
}
fn check(i: Info, f: F, g: G, c: &[i128]) -> Verdict {
    let (w, n) = (c[0], c[1] as i32);
    let m = n.unsigned_abs();
    let class = match n { 0 => "power 0", 1 => "power 1", 2..=4 => "power 2 to 4", 5.. => "power 5 and up", -1 => "power -1", _ => "power -2 and down" };
    let call = || guard(|| (f(w, n), if n >= 0 && m <= 100_000 { g(w, m as usize) } else { i128::MIN }));
    if i.kind == Kind::Int {
        let want = if n >= 0 { int_power(&i, w, m) } else if w == 0 { return Verdict::Skip("reciprocal of zero") }
            else if i.signed && w == -1 { Some(if m % 2 == 0 { 1 } else { -1 }) } else { Some((w == 1) as i128) };
        let Some(want) = want else { return Verdict::Skip("power not representable") };
        let (r, s) = match call() { Ok(r) => r, Err(e) => fail!("panics: {e}") };
        if r != want { fail!("power is {}, expected {}", i.show(r), i.show(want)) }
        if s != i128::MIN && s != want { fail!("the free powi gives {}, expected {}", i.show(s), i.show(want)) }
        return pass(w != 0 && w != 1 && n != 0, class);
    }
    if i.is_float() {
        let x = i.f(w);
        if n == 0 {
            let (r, s) = match call() { Ok(r) => r, Err(e) => fail!("panics: {e}") };
            if i.f(r) != 1.0 || i.f(s) != 1.0 { fail!("power 0 is {} or {}", i.show(r), i.show(s)) }
            return pass(false, class);
        }
        if !x.is_finite() || (x == 0.0 && n < 0) {
            // The powers of the extended numbers: NaN stays, the others are infinite or zero, negative for odd powers of negative ones.
            let (r, s) = match call() { Ok(r) => r, Err(e) => fail!("panics: {e}") };
            let want = if x.is_nan() { x } else { (if x.is_infinite() == (n > 0) { f64::INFINITY } else { 0.0 }) * if x.is_sign_negative() && m % 2 == 1 { -1.0 } else { 1.0 } };
            for (name, r) in [("mixed_powi", r), ("the free powi", s)] {
                if r != i128::MIN && !same(&i, r, i.w(want)) { fail!("{name} is {}, expected {want:?}", i.show(r)) }
            }
            return pass(false, "infinite, zero or NaN");
        }
        let small: f64 = if i.kind == Kind::F32 { 1e-30 } else { 1e-280 };
        let l = if x == 0.0 { 0.0 } else { x.abs().log2() * n as f64 };
        if l > (if i.kind == Kind::F32 { 127.0 } else { 1020.0 }) || (x != 0.0 && l < small.log2()) { return Verdict::Skip("power not representable") }
        if x != 0.0 && !(small..1.0 / small).contains(&x.abs()) { return Verdict::Skip("reciprocal may not be representable") }
        // Far beyond that many factors, rounding leaves nothing.
        let tol = (2.0 * m as f64 + 2.0) * eps(&i);
        if tol > 0.01 && x.abs() != 1.0 { return Verdict::Skip("rounding leaves nothing") }
        let want = if n > 0 { DD::new(x).powi(m) } else { DD::new(1.0).div(DD::new(x)).powi(m) };
        let (r, s) = match call() { Ok(r) => r, Err(e) => fail!("panics: {e}") };
        let tol = if x.abs() == 1.0 { 0.0 } else { tol * want.f().abs() + tiny(&i) };
        let mut worst = 0.0f64;
        for (name, r) in [("mixed_powi", r), ("the free powi", s)] {
            if r == i128::MIN { continue }
            let e = off(&i, r, want);
            if !(e <= tol) { fail!("{name} is {}, exact {:e}: {e:.3e} off, allowed {tol:.3e}", i.show(r), want.f()) }
            worst = worst.max(if tol > 0.0 { e / tol } else { 0.0 });
        }
        return pass_r(x != 0.0 && x.abs() != 1.0, class, worst);
    }
    // Fixed point: the base is the number itself, or one of the words around its reciprocal.
    let bases = if n >= 0 { vec![w] } else {
        if w == 0 { return Verdict::Skip("reciprocal of zero") }
        let one = 1i128 << (2 * i.frac);
        let mut v = vec![div_fl(one, w), div_cl(one, w)];
        v.dedup();
        v
    };
    // Products of whole numbers are exact.
    let u = if i.frac == 0 { 0.0 } else { i.ulp() };
    let big = bases.iter().map(|b| i.f(*b).abs()).fold(0.0, f64::max);
    let above = big.max(1.0);
    if !bases.iter().all(|b| i.fits(*b)) || !(big.powi(m.min(1 << 20) as i32) + product_error(above, m, u) < i.maxf()) { return Verdict::Skip("power not representable") }
    let (r, s) = match call() { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if s != i128::MIN && s != r { fail!("mixed_powi is {}, the free powi {}", i.show(r), i.show(s)) }
    let mut best = f64::INFINITY;
    let mut text = String::new();
    for b in bases {
        let x = i.dd(b);
        let want = x.powi(m);
        let tol = product_error(x.f().abs(), m, u) * 1.0001 + x.f().abs().powf(m as f64) * 1e-25;
        let e = off(&i, r, want);
        let ratio = if e == 0.0 { 0.0 } else { e / tol };
        if ratio < best { best = ratio; text = format!("power is {}, exact {}: {e:.3e} off, allowed {tol:.3e}", i.show(r), want.f()) }
    }
    if !(best <= 1.0) { fail!("{text}") }
    pass_r(w != 0 && w != i.one() && n != 0, class, best)
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 12_000 } else { 100_000 };
        let s = Sub::new(format!("power {}", i.name), move |c| check(i, f, g, c)).show(move |c| format!("{}: {} to the power {}", i.name, i.show(c[0]), c[1]));
        // The extreme exponents, once per kind of type, as the library multiplies two thousand million times.
        if ["i32", "u64", "FixedI8<U0>", "FixedU8<U0>"].contains(&i.name) {
            let three = if i.kind == Kind::Int { 3 } else { i.one() * 3 };
            let mut v = vec![vec![three, i32::MIN as i128]];
            if i.signed { v.push(vec![-i.one(), i32::MIN as i128]) }
            v.push(vec![i.one(), i32::MAX as i128]);
            for c in v {
                let name = format!("extreme power {}: {} to the {}", i.name, i.show(c[0]), c[1]);
                out.push(Sub::new(name, move |c| check(i, f, g, c)).show(move |c| format!("{}: {} to the power {}", i.name, i.show(c[0]), c[1])).fixed(vec![c]));
            }
        }
        if i.bits == 8 {
            // Every word with every exponent in -24..=24.
            out.push(s.sweep(49 << 8, move |k, c| c.extend([i.min() + (k & 255) as i128, (k >> 8) as i128 - 24])));
            return;
        }
        let one = i.one();
        let base = move || match i.kind {
            Kind::F32 | Kind::F64 => mix(12, gen::float_mid(&i, 20), 1, gen::any_word(&i)),
            Kind::Int => mix(3, gen::range(if i.signed { -12 } else { 0 }, 12, vec![]), 2, gen::any_word(&i)),
            _ => mix(3, gen::fx_range(&i, if i.signed { -3 * one } else { 0 }, 3 * one), 2, gen::fx_any(&i)),
        };
        let exponent = move || mix(6, gen::int(-6, 12), 1, mix(6, gen::int(-40, 200), 1, if i.is_float() { gen::pick(vec![i32::MIN as i128, i32::MAX as i128, -1000, 1000, 100000]) } else { gen::pick(vec![-1000, 1000, 5000, -5000, 1025, 70_001, -66_000, 131_072]) }));
        out.push(s.gen(n, n * DEEP, move || gen::words(vec![base(), exponent()])));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, g::<$t>, &mut subs) } }
    signed_reals!(reg);
    unsigned_fixed!(reg);
    signed_int!(reg);
    unsigned_int!(reg);
    kit::main(Property {
        id: "C17",
        rule: "base neither zero nor one, exponent not zero",
        assumptions: &["reference: exact integer power, double-double power for fixed and floating point", "powers outside the type and the reciprocal of zero are outside the domain"],
        subs,
        findings: vec![],
    })
}
