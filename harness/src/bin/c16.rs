//! C16: sign and absolute value.
use props::*;

/// sign, free sign, is_positive, is_negative.
type F = fn(i128) -> (i128, i128, bool, bool);
/// abs, sign * abs, free sign of the absolute value.
type G = fn(i128) -> (i128, i128);
fn f<T: Sc + MixedReal>(w: i128) -> (i128, i128, bool, bool) {
    let x = T::v(w);
    (x.mixed_sign().w(), trigonometry::sign(x).w(), x.mixed_is_positive(), x.mixed_is_negative())
}
fn g<T: Sc + MixedReal + MixedOps + MixedAbs>(w: i128) -> (i128, i128) {
    let x = T::v(w);
    (x.mixed_abs().w(), (x.mixed_sign() * x.mixed_abs()).w())
}
fn check(i: Info, f: F, g: G, c: &[i128]) -> Verdict {
    let w = c[0];
    let wide = i.bits == 128 && !i.signed;
    let x = if wide { w as u128 as f64 } else { i.f(w) };
    if x.is_nan() { return Verdict::Skip("NaN") }
    let (s, t, p, n) = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let want = if x < 0.0 { -1.0 } else { 1.0 };
    for (name, s) in [("mixed_sign", s), ("sign", t)] { if i.f(s) != want { fail!("{name} is {}, expected {want}", i.show(s)) } }
    if x != 0.0 && (p != (x > 0.0) || n != (x < 0.0)) { fail!("is_positive is {p}, is_negative is {n}") }
    if !i.is_float() && i.signed && w == i.min() { return pass(false, "minimum, sign only") }
    let (a, sa) = match guard(|| g(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let av = if wide { a as u128 as f64 } else { i.f(a) };
    let abs = if i.is_float() || wide || w >= 0 { w } else { -w };
    if i.is_float() { if av != x.abs() { fail!("absolute value is {}", i.show(a)) } } else if a != abs { fail!("absolute value is {}", i.show(a)) }
    if av < 0.0 { fail!("absolute value {} is negative", i.show(a)) }
    if !(if i.is_float() { i.f(sa) == x } else { sa == w }) { fail!("sign times absolute value is {}", i.show(sa)) }
    pass(x != 0.0, if x < 0.0 { "negative" } else if x > 0.0 { "positive" } else { "zero" })
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 5_000 } else { 100_000 };
        let s = Sub::new(format!("sign {}", i.name), move |c| check(i, f, g, c)).show(show_words(i));
        out.push(if i.bits <= 16 { s.sweep(1 << i.bits, move |k, c| c.push(i.min() + k as i128)) } else { s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i)])) });
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, g::<$t>, &mut subs) } }
    signed_reals!(reg);
    unsigned_fixed!(reg);
    signed_int!(reg);
    unsigned_int!(reg);
    kit::main(Property {
        id: "C16",
        rule: "value non-zero",
        assumptions: &["the absolute value of the least value of signed integer and fixed types is outside the domain"],
        subs,
        findings: vec![],
    })
}
