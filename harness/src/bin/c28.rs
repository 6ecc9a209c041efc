//! C28: polynomial arctangent.
use kit::Just;
use props::*;

type F = fn(i128) -> i128;
type G = fn(i128, i128) -> [i128; 2];
fn one<T: Sgn>(w: i128) -> i128 { trigonometry::atan::atan(T::v(w)).w() }
fn two<T: Sgn>(y: i128, x: i128) -> [i128; 2] { [T::v(y).mixed_atan2_poly(T::v(x)).w(), trigonometry::atan::atan2(T::v(y), T::v(x)).w()] }

/// 0.29 degrees.
const POLY: f64 = 0.29 * PI / 180.0;
fn tol(i: &Info) -> f64 { POLY + 3.0 * res(i, 1.0) }
fn ratio(i: &Info, e: f64) -> f64 { if i.is_float() { e / tol(i) } else { (e - POLY).max(0.0) / (tol(i) - POLY) } }
fn outside(i: &Info, w: i128) -> bool { if i.is_float() { !i.f(w).is_finite() } else { w == i.min() } }

fn judge(i: &Info, y: i128, x: i128, r: i128) -> Verdict {
    let (fy, fx) = if i.is_float() { (i.f(y), i.f(x)) } else { (y as f64, x as f64) };
    let fr = i.f(r);
    if fy == 0.0 && fx == 0.0 {
        // Negative zeros may stand for the negative axis.
        let minus = fy.is_sign_negative() || fx.is_sign_negative();
        if fr != 0.0 && !(minus && (fr.abs() - PI).abs() <= tol(i)) { fail!("the angle of (0, 0) is {}", i.show(r)) }
        return pass(false, "origin");
    }
    let axis = |e: f64| if i.is_float() { (fr - e).abs() <= res(i, e) } else { (i.dd(r).sub(DD::new(e))).f().abs() <= if e.abs() == PI { 1.0 } else { 1.5 } * i.ulp().max(1e-15) };
    if fy == 0.0 {
        if !(if fx > 0.0 { fr == 0.0 } else { axis(PI) || (fy.is_sign_negative() && axis(-PI)) }) { fail!("the angle is {}", i.show(r)) }
        return pass(true, "real axis");
    }
    if fx == 0.0 {
        if !axis(if fy > 0.0 { PI / 2.0 } else { -PI / 2.0 }) { fail!("the angle is {}", i.show(r)) }
        return pass(true, "imaginary axis");
    }
    let want = fy.atan2(fx);
    let e = off(i, r, DD::new(want));
    if !(e <= tol(i)) { fail!("the angle is {}, should be {want}: {e:e} off, allowed {:e}", i.show(r), tol(i)) }
    // Never on the wrong side of the real axis, nor beyond a half turn.
    let step = 2.0 * res(i, 1.0);
    if (fy > 0.0 && fr < -step) || (fy < 0.0 && fr > step) || fr.abs() > PI + step { fail!("the angle is {}, should be {want}: wrong half plane", i.show(r)) }
    if (fx > 0.0 && fr.abs() > PI / 2.0 + step) || (fx < 0.0 && fr.abs() < PI / 2.0 - step) { fail!("the angle is {}, should be {want}: wrong quadrant", i.show(r)) }
    let class = match (fx > 0.0, fy.abs() < fx.abs()) {
        (true, true) => "right octants", (true, false) => "upper right octants", (false, false) => "upper left octants", (false, true) => "left octants",
    };
    pass_r(true, class, ratio(i, e))
}

fn check1(i: Info, f: F, c: &[i128]) -> Verdict {
    if outside(&i, c[0]) { return Verdict::Skip("absolute value not representable or not finite") }
    let r = match guard(|| f(c[0])) { Ok(r) => r, Err(e) => fail!("atan panics: {e}") };
    judge(&i, c[0], if i.is_float() { i.w(1.0) } else { i.one() }, r)
}
fn check2(i: Info, g: G, c: &[i128]) -> Verdict {
    if outside(&i, c[0]) || outside(&i, c[1]) { return Verdict::Skip("absolute value not representable or not finite") }
    let r = match guard(|| g(c[0], c[1])) { Ok(r) => r, Err(e) => fail!("atan2 panics: {e}") };
    if !same(&i, r[0], r[1]) { fail!("mixed_atan2_poly gives {}, trigonometry::atan::atan2 {}", i.show(r[0]), i.show(r[1])) }
    judge(&i, c[0], c[1], r[0])
}

fn reg2(i: Info, f: F, g: G, subs: &mut Vec<Sub>) {
    let s = Sub::new(format!("atan {}", i.name), move |c| check1(i, f, c)).show(show_words(i));
    let n = 10_000;
    subs.push(if i.bits <= 16 && !i.is_float() { s.sweep((i.max() - i.min() + 1) as u64, move |k, c| c.push(i.min() + k as i128)) }
        else { s.gen(n, n * DEEP, move || gen::words(vec![if i.is_float() { mix(1, gen::any_word(&i), 1, gen::float_range(&i, -4.0, 4.0, vec![1.0, -1.0, 0.0])) } else { mix(1, gen::fx_any(&i), 1, gen::fx_range(&i, (-4 * i.one()).max(i.min()), (4 * i.one()).min(i.max()))) }])) });
    let s = Sub::new(format!("atan2 {}", i.name), move |c| check2(i, g, c)).show(show_words(i));
    subs.push(if i.bits == 8 { s.sweep(1 << 16, move |k, c| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) }) }
        else {
            s.gen(4 * n, 4 * n * DEEP, move || {
                let any = || if i.is_float() { mix(1, gen::any_word(&i), 2, gen::float_mid(&i, 3)) } else { mix(2, gen::fx_any(&i), 1, gen::fx_range(&i, -i.one(), i.one())) };
                // Near the diagonals.
                let diag = (any(), -3i128..=3, kit::prop_oneof![Just(false), Just(true)]).prop_map(move |(w, d, neg)| {
                    if i.is_float() {
                        let s = if i.kind == Kind::F32 { 1i128 << 31 } else { 1i128 << 63 };
                        vec![w, ((w & !s) + d).max(0) | if neg { s } else { 0 }]
                    } else { vec![w, (if neg { w.checked_neg().unwrap_or(0) } else { w }).saturating_add(d).clamp(i.min(), i.max())] }
                }).boxed();
                let thin = (any(), -3i128..=3, kit::prop_oneof![Just(false), Just(true)]).prop_map(move |(w, d, swap)| {
                    let d = if i.is_float() { i.w(d as f64) } else { d.clamp(i.min(), i.max()) };
                    if swap { vec![d, w] } else { vec![w, d] }
                }).boxed();
                kit::union(vec![(4, gen::words(vec![any(), any()])), (1, diag), (1, thin)])
            })
        });
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, one::<$t>, two::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C28",
        rule: "not both operands zero",
        assumptions: &["reference: glibc atan2 in double precision", "operands whose absolute value is not representable (the smallest fixed-point word) are left open"],
        subs,
        findings: vec![],
    })
}
