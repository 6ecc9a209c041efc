//! C08: conjugation.
use props::*;

type P = (i128, i128);
struct Cart { conj: P, twice: P, prod: P }
struct Pol { conj: P, twice: P, prod: P }
type F = fn(P) -> Cart;
type G = fn(P) -> Pol;
/// Conjugates in the other representation: of cartesian in polar form, of polar in cartesian form.
type X = fn(P) -> P;

fn conj<T: Arith>(z: Cartesian<T>) -> Cartesian<T> { z.conj() }
fn conj_polar<T: Arith>(z: Polar<T>) -> Polar<T> where Polar<T>: Conj<Polar<T>> { z.conj() }
fn f<T: Arith>(c: P) -> Cart {
    let z = cv::<T>(c.0, c.1);
    let k = conj(z);
    let prod = guard(|| cw(z * k)).unwrap_or((i128::MIN, i128::MIN));
    Cart { conj: cw(k), twice: cw(conj(k)), prod }
}
fn g<T: Sgn>(c: P) -> Pol {
    let z = pv::<T>(c.0, c.1);
    let k = conj_polar(z);
    let prod = guard(|| pw(z * k)).unwrap_or((i128::MIN, i128::MIN));
    Pol { conj: pw(k), twice: pw(conj_polar(k)), prod }
}
fn to_pol<T: Sgn>(c: P) -> P {
    let k: Polar<T> = cv::<T>(c.0, c.1).conj();
    pw(k)
}
fn to_cart<T: Sgn>(c: P) -> P {
    let k: Cartesian<T> = pv::<T>(c.0, c.1).conj();
    cw(k)
}
fn neg(i: &Info, w: i128) -> i128 {
    match i.kind { Kind::F32 => w ^ (1 << 31), Kind::F64 => w ^ (1 << 63), _ => -w }
}
fn fmul(i: &Info, a: i128, b: i128) -> i128 {
    if i.kind == Kind::F32 { (f32::v(a) * f32::v(b)).w() } else { (f64::v(a) * f64::v(b)).w() }
}

fn check_cart(i: Info, f: F, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    if !i.is_float() && z.1 == i.min() { return Verdict::Skip("negation not representable") }
    let r = match guard(|| f(z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let want = (z.0, neg(&i, z.1));
    if !same2(&i, r.conj, want) { fail!("conjugate is {}, expected {}", show2(&i, r.conj), show2(&i, want)) }
    if !same2(&i, r.twice, z) { fail!("conjugating twice gives {}", show2(&i, r.twice)) }
    let nt = i.f(z.0) != 0.0 && i.f(z.1) != 0.0;
    if i.is_float() {
        let n2 = norm2(&i, z.0, z.1).f();
        if !(n2 < huge(&i) / 4.0) { return pass(false, "conjugate") }
        if i.f(r.prod.1) != 0.0 { fail!("z times its conjugate is {}", show2(&i, r.prod)) }
        let e = off(&i, r.prod.0, norm2(&i, z.0, z.1));
        let tol = 1.5 * eps(&i) * n2 + 4.0 * tiny(&i) + if i.kind == Kind::F64 && n2 < 1e-280 { 1e-300 } else { 0.0 };
        if !(e <= tol) { fail!("z times its conjugate is {}, squared magnitude {n2:e}: {e:.3e} off, allowed {tol:.3e}", show2(&i, r.prod)) }
        return pass_r(nt, "conjugate and product", e / tol);
    }
    let (Some(p), Some(q), Some(x)) = (z.0.checked_mul(z.0), z.1.checked_mul(z.1), z.0.checked_mul(z.1)) else { return pass(nt, "conjugate") };
    let (lo, hi) = (fl(p, i.frac).saturating_add(fl(q, i.frac)), cl(p, i.frac).checked_add(cl(q, i.frac)).unwrap_or(i128::MIN));
    if hi < 0 || !i.fits(hi) || !i.fits(cl(x, i.frac)) || !i.fits(fl(x, i.frac)) || !i.fits(cl(x, i.frac).saturating_neg()) || !i.fits(fl(x, i.frac).saturating_neg()) || !i.fits(cl(q, i.frac).saturating_neg()) { return pass(nt, "conjugate") }
    if r.prod.1.unsigned_abs() > (i.kind == Kind::Fx) as u128 { fail!("z times its conjugate is {}", show2(&i, r.prod)) }
    if r.prod.0 < lo || hi < r.prod.0 { fail!("z times its conjugate is {}, squared magnitude {}", show2(&i, r.prod), i.show(lo)) }
    pass(nt, "conjugate and product")
}
fn check_polar(i: Info, g: G, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    if !i.is_float() && z.1 == i.min() { return Verdict::Skip("negation not representable") }
    let r = match guard(|| g(z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let want = (z.0, neg(&i, z.1));
    if !same2(&i, r.conj, want) { fail!("conjugate is {}, expected {}", show2(&i, r.conj), show2(&i, want)) }
    if !same2(&i, r.twice, z) { fail!("conjugating twice gives {}", show2(&i, r.twice)) }
    let nt = i.f(z.0) != 0.0 && i.f(z.1) != 0.0;
    if i.is_float() {
        if !i.f(z.0).is_finite() || !i.f(z.1).is_finite() { return pass(false, "conjugate") }
        if !same(&i, r.prod.0, fmul(&i, z.0, z.0)) && i.f(z.0) != 0.0 { fail!("z times its conjugate is {}", show2(&i, r.prod)) }
        if i.f(z.0) == 0.0 && i.f(r.prod.0) != 0.0 { fail!("z times its conjugate is {}", show2(&i, r.prod)) }
    } else {
        let Some(p) = z.0.checked_mul(z.0) else { return pass(nt, "conjugate") };
        if !i.fits(cl(p, i.frac)) { return pass(nt, "conjugate") }
        if r.prod.0 < fl(p, i.frac) || cl(p, i.frac) < r.prod.0 { fail!("z times its conjugate is {}", show2(&i, r.prod)) }
    }
    if i.f(r.prod.1) != 0.0 { fail!("z times its conjugate is {}, which is not real", show2(&i, r.prod)) }
    pass(nt, "polar conjugate and product")
}
fn check_to_polar(i: Info, x: X, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    if !norm_fits(&i, z.0, z.1) { return Verdict::Skip("squared magnitude not representable") }
    let r = match guard(|| x(z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let n2 = norm2(&i, z.0, z.1);
    let (em, tm) = (off(&i, r.0, n2.sqrt()), mag_err(&i, n2.f()));
    if !(em <= tm) { fail!("conjugate in polar form is {}, magnitude {}: {em:.3e} off, allowed {tm:.3e}", show2(&i, r), n2.sqrt().f()) }
    if n2.f() == 0.0 { return pass(false, "zero") }
    let a = DD::atan2(exact(&i, z.1), exact(&i, z.0)).neg();
    let ta = arg_err(&i);
    let mut ea = off(&i, r.1, a);
    if i.f(z.1) == 0.0 { ea = ea.min(off(&i, r.1, a.neg())) }
    if !(ea <= ta) { fail!("conjugate in polar form is {}, angle {}: {ea:.3e} off, allowed {ta:.3e}", show2(&i, r), a.f()) }
    pass_r(i.f(z.0) != 0.0 && i.f(z.1) != 0.0, "cartesian to polar", (em / tm).max(ea / ta))
}
fn check_to_cart(i: Info, x: X, c: &[i128]) -> Verdict {
    let z = (c[0], c[1]);
    let (m, a) = (i.f(z.0), i.f(z.1));
    if !i.is_float() && z.1 == i.min() { return Verdict::Skip("negation not representable") }
    let tol = polar_err(&i, m, a);
    if !(m.abs() + tol < top(&i)) { return Verdict::Skip("parts not representable") }
    let r = match guard(|| x(z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let (u, v) = phasor(exact(&i, z.0), exact(&i, z.1).neg());
    let e = off(&i, r.0, u).max(off(&i, r.1, v));
    if !(e <= tol) { fail!("conjugate in cartesian form is {}, exact ({}, {}): {e:.3e} off, allowed {tol:.3e}", show2(&i, r), u.f(), v.f()) }
    let coarse = tol > 0.5 * m.abs();
    pass_r(!coarse && m != 0.0 && a != 0.0, if coarse { "coarse" } else { "polar to cartesian" }, e / tol)
}

fn main() {
    let mut subs = vec![];
    fn pairs(i: Info) -> impl Fn(u64, &mut Case) { move |k: u64, c: &mut Case| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) } }
    fn reg1(i: Info, f: F, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 6_000 } else { 100_000 };
        let s = Sub::new(format!("cartesian {}", i.name), move |c| check_cart(i, f, c)).show(show_words(i));
        out.push(if i.bits == 8 { s.sweep(1 << 16, pairs(i)) } else { s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![mix(1, factor(&i), 1, gen::any_word(&i)), mix(1, factor(&i), 1, gen::any_word(&i))]))) });
    }
    fn reg2(i: Info, g: G, p: X, q: X, out: &mut Vec<Sub>) {
        let n = if i.is_float() { 100_000 } else { 6_000 };
        let s = Sub::new(format!("polar {}", i.name), move |c| check_polar(i, g, c)).show(show_words(i));
        out.push(if i.bits == 8 { s.sweep(1 << 16, pairs(i)) } else { s.gen(n, n * DEEP, move || gen::words(vec![mix(1, factor(&i), 1, gen::any_word(&i)), gen::any_word(&i)])) });
        let s = Sub::new(format!("to polar {}", i.name), move |c| check_to_polar(i, p, c)).show(show_words(i));
        out.push(s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![part(&i), part(&i)]))));
        let s = Sub::new(format!("to cartesian {}", i.name), move |c| check_to_cart(i, q, c)).show(show_words(i));
        out.push(s.gen(n, n * DEEP, move || gen::words(vec![if i.is_float() { gen::float_mid(&i, 30) } else { gen::fx_any(&i) }, angle(&i)])));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg1(<$t as Sc>::I, f::<$t>, &mut subs) } }
    signed_reals!(reg);
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, g::<$t>, to_pol::<$t>, to_cart::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C08",
        rule: "both parts, or magnitude and angle, non-zero",
        assumptions: &["reference across representations: double-double trigonometry", "the sign of a zero part decides between pi and -pi and is left open"],
        subs,
        findings: vec![],
    })
}
