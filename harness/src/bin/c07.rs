//! C07: conversion between polar and cartesian form.
use props::*;

type P = (i128, i128);
type F = fn(P) -> ([P; 4], [P; 2]);
type G = fn(P) -> ([P; 4], [P; 2], P);
/// From polar form.
fn f<T: Sgn>(p: P) -> ([P; 4], [P; 2]) {
    let z = pv::<T>(p.0, p.1);
    let by_trait: Cartesian<T> = ToCartesian::to_cartesian(&z);
    let new: Cartesian<T> = NewFromPolar::new_from_polar(z.mag, z.ang);
    let same: Polar<T> = NewFromPolar::new_from_polar(z.mag, z.ang);
    ([cw(z.to_cartesian()), cw(by_trait), cw(to_cartesian(z)), cw(new)], [pw(z.to_polar()), pw(same)])
}
/// From cartesian form.
fn g<T: Sgn>(c: P) -> ([P; 4], [P; 2], P) {
    let z = cv::<T>(c.0, c.1);
    let by_trait: Polar<T> = ToPolar::to_polar(&z);
    let new: Polar<T> = NewFromCartesian::new_from_cartesian(z.re, z.im);
    let same: Cartesian<T> = NewFromCartesian::new_from_cartesian(z.re, z.im);
    ([pw(z.to_polar()), pw(by_trait), pw(to_polar(z)), pw(new)], [cw(z.to_cartesian()), cw(same)], cw(z.to_polar().to_cartesian()))
}

fn check_polar(i: Info, f: F, c: &[i128]) -> Verdict {
    let p = (c[0], c[1]);
    let (m, a) = (i.f(p.0), i.f(p.1));
    let tol = polar_err(&i, m, a);
    if m.abs() + tol >= top(&i) { return Verdict::Skip("parts not representable") }
    let (r, id) = match guard(|| f(p)) { Ok(r) => r, Err(e) => fail!("conversion to cartesian panics: {e}") };
    for q in &r[1..] { if !same2(&i, *q, r[0]) { fail!("one route gives {}, another {}", show2(&i, r[0]), show2(&i, *q)) } }
    for q in id { if !same2(&i, q, p) { fail!("polar to polar changes {} to {}", show2(&i, p), show2(&i, q)) } }
    let (x, y) = phasor(exact(&i, p.0), exact(&i, p.1));
    let e = off(&i, r[0].0, x).max(off(&i, r[0].1, y));
    if !(e <= tol) { fail!("{} is {}, exact ({}, {}): {e:.3e} off, allowed {tol:.3e}", show2(&i, p), show2(&i, r[0]), x.f(), y.f()) }
    let coarse = tol > 0.5 * m.abs();
    pass_r(!coarse && m != 0.0 && a != 0.0, if coarse { "coarse" } else if a.abs() <= PI { "polar, angle in range" } else { "polar, angle to be wrapped" }, e / tol)
}
fn check_cart(i: Info, g: G, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    if !norm_fits(&i, z.0, z.1) { return Verdict::Skip("squared magnitude not representable") }
    let (r, id, back) = match guard(|| g(z)) { Ok(r) => r, Err(e) => fail!("conversion to polar panics: {e}") };
    for q in &r[1..] { if !same2(&i, *q, r[0]) { fail!("one route gives {}, another {}", show2(&i, r[0]), show2(&i, *q)) } }
    for q in id { if !same2(&i, q, z) { fail!("cartesian to cartesian changes {} to {}", show2(&i, z), show2(&i, q)) } }
    let n2 = norm2(&i, z.0, z.1);
    let m = n2.sqrt();
    let (em, tm) = (off(&i, r[0].0, m), mag_err(&i, n2.f()));
    if !(em <= tm) { fail!("magnitude of {} is {}, exact {}: {em:.3e} off, allowed {tm:.3e}", show2(&i, z), i.show(r[0].0), m.f()) }
    let (x, y) = (exact(&i, z.0), exact(&i, z.1));
    if m.f() == 0.0 { return pass(false, "zero") }
    let a = DD::atan2(y, x);
    let ta = arg_err(&i);
    let mut ea = off(&i, r[0].1, a);
    if y.f() == 0.0 { ea = ea.min(off(&i, r[0].1, a.neg())) }
    if !(ea <= ta) { fail!("argument of {} is {}, exact {}: {ea:.3e} off, allowed {ta:.3e}", show2(&i, z), i.show(r[0].1), a.f()) }
    let tol = tm + (m.f() + tm) * ta + polar_err(&i, m.f() + tm, i.f(r[0].1));
    let e = off(&i, back.0, x).max(off(&i, back.1, y));
    if !(e <= tol) { fail!("{} comes back as {} through {}: {e:.3e} off, allowed {tol:.3e}", show2(&i, z), show2(&i, back), show2(&i, r[0])) }
    let coarse = tol > 0.5 * m.f();
    pass_r(!coarse && x.f() != 0.0 && y.f() != 0.0, if coarse { "coarse" } else { "cartesian and back" }, (em / tm).max(ea / ta).max(e / tol))
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        let n = if i.is_float() { 200_000 } else { 10_000 };
        let pairs = move |k: u64, c: &mut Case| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) };
        let s = Sub::new(format!("polar {}", i.name), move |c| check_polar(i, f, c)).show(show_words(i));
        out.push(if i.bits == 8 { s.sweep(1 << 16, pairs) } else { s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i).prop_filter("finite", move |w| i.f(*w).is_finite()).boxed(), angle(&i)])) });
        let s = Sub::new(format!("cartesian {}", i.name), move |c| check_cart(i, g, c)).show(show_words(i));
        out.push(if i.bits == 8 { s.sweep(1 << 16, pairs) } else { s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![part(&i), part(&i)]))) });
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, g::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C07",
        rule: "magnitude, angle and both parts non-zero, and the accuracy of the type at that place finer than half the magnitude",
        assumptions: &["reference: double-double trigonometry", "the argument of zero is left open"],
        subs,
        findings: vec![],
    })
}
