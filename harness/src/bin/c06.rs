//! C06: products and quotients of polar numbers.
use props::*;

type P = (i128, i128);
/// Polar by polar and polar by scalar.
type F = fn(P, P) -> [P; 2];
type G = fn(P, i128) -> P;
type Fd = fn(P, i128) -> P;
/// Polar by cartesian in both orders.
struct M { polar_cart: P, cart_polar: [P; 6] }
type H = fn(P, P) -> M;
const FORMS: [&str; 6] = ["z*p", "z*&p", "z*&mut p", "z *= p", "z *= &p", "z *= &mut p"];

fn f<T: Arith>(a: P, b: P) -> [P; 2] {
    let (a, b) = (pv::<T>(a.0, a.1), pv::<T>(b.0, b.1));
    [pw(a * b), pw(mul_polar(a, b))]
}
fn g<T: Arith>(a: P, b: i128) -> P { pw(pv::<T>(a.0, a.1) * T::v(b)) }
fn d<T: Arith>(a: P, b: i128) -> P { pw(pv::<T>(a.0, a.1) / T::v(b)) }
fn h<T: Sgn>(p: P, z: P) -> M {
    let (mut p, z) = (pv::<T>(p.0, p.1), cv::<T>(z.0, z.1));
    let (mut z1, mut z2, mut z3) = (z, z, z);
    z1 *= p;
    z2 *= &p;
    z3 *= &mut p;
    M { polar_cart: pw(p * z), cart_polar: [cw(z * p), cw(z * &p), cw(z * &mut p), cw(z1), cw(z2), cw(z3)] }
}

/// Least and greatest word of a product; None where it does not fit.
fn product(i: &Info, a: i128, b: i128) -> Option<(i128, i128)> {
    let p = a.checked_mul(b)?;
    let r = (fl(p, i.frac), cl(p, i.frac));
    if i.fits(r.0) && i.fits(r.1) { Some(r) } else { None }
}
/// IEEE product of float words.
fn fmul(i: &Info, a: i128, b: i128) -> i128 {
    if i.kind == Kind::F32 { (f32::v(a) * f32::v(b)).w() } else { (f64::v(a) * f64::v(b)).w() }
}
fn fdiv(i: &Info, a: i128, b: i128) -> i128 {
    if i.kind == Kind::F32 { (f32::v(a) / f32::v(b)).w() } else { (f64::v(a) / f64::v(b)).w() }
}
fn fadd(i: &Info, a: i128, b: i128) -> i128 {
    if i.kind == Kind::F32 { (f32::v(a) + f32::v(b)).w() } else { (f64::v(a) + f64::v(b)).w() }
}

fn check_polar(i: Info, f: F, c: &[i128]) -> Verdict {
    let (a, b) = ((c[0], c[1]), (c[2], c[3]));
    let zero = i.f(a.0) == 0.0 || i.f(b.0) == 0.0;
    let (mut mag, mut ang) = ((0, 0), 0);
    if !zero && i.is_float() { mag = (fmul(&i, a.0, b.0), 0); mag.1 = mag.0; ang = fadd(&i, a.1, b.1) }
    else if !zero {
        let (Some(m), Some(s)) = (product(&i, a.0, b.0), a.1.checked_add(b.1).filter(|s| i.fits(*s))) else { return Verdict::Skip("product not representable") };
        mag = m;
        ang = s;
    }
    let r = match guard(|| f(a, b)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if !same2(&i, r[0], r[1]) { fail!("a*b is {}, mul_polar(a,b) {}", show2(&i, r[0]), show2(&i, r[1])) }
    let ok = if i.is_float() { same(&i, r[0].0, mag.0) } else { mag.0 <= r[0].0 && r[0].0 <= mag.1 };
    if !ok { fail!("magnitude of the product is {}, expected {}", i.show(r[0].0), i.show(mag.0)) }
    if !same(&i, r[0].1, ang) { fail!("angle of the product is {}, expected {}", i.show(r[0].1), i.show(ang)) }
    pass(!zero && a.1 != 0 && b.1 != 0, if zero { "zero magnitude" } else { "polar by polar" })
}
fn check_scalar(i: Info, g: G, d: Fd, c: &[i128]) -> Verdict {
    let (a, b, div) = ((c[0], c[1]), c[2], c[3] == 1);
    let (lo, hi);
    if div && i.f(b) == 0.0 { return Verdict::Skip("division by zero, see C05") }
    if i.is_float() {
        lo = if div { fdiv(&i, a.0, b) } else { fmul(&i, a.0, b) };
        hi = lo;
    } else if div {
        let Some(n) = a.0.checked_mul(i.one()) else { return Verdict::Skip("quotient not representable") };
        if n == i128::MIN && b == -1 { return Verdict::Skip("quotient not representable") }
        (lo, hi) = if i.kind == Kind::Int { (n / b, n / b) } else { (div_fl(n, b), div_cl(n, b)) };
        if !i.fits(lo) || !i.fits(hi) { return Verdict::Skip("quotient not representable") }
    } else {
        let Some(m) = product(&i, a.0, b) else { return Verdict::Skip("product not representable") };
        (lo, hi) = m;
    }
    let r = match guard(|| if div { d(a, b) } else { g(a, b) }) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let ok = if i.is_float() { same(&i, r.0, lo) } else { lo <= r.0 && r.0 <= hi };
    if !ok { fail!("{} {} {} has magnitude {}, expected {}", show2(&i, a), if div { "/" } else { "*" }, i.show(b), i.show(r.0), i.show(lo)) }
    if !same(&i, r.1, a.1) { fail!("{} by a scalar has angle {}", show2(&i, a), i.show(r.1)) }
    pass(i.f(a.0) != 0.0 && a.1 != 0 && b != 0, if div { "polar by scalar, quotient" } else { "polar by scalar, product" })
}
fn check_mixed(i: Info, h: H, c: &[i128]) -> Verdict {
    let (p, z) = ((c[0], c[1]), (c[2], c[3]));
    let (m, a) = (i.f(p.0), i.f(p.1));
    let (x, y) = (i.f(z.0), i.f(z.1));
    if a.abs() > 1e14 { return Verdict::Skip("angle beyond the reference") }
    if !norm_fits(&i, z.0, z.1) { return Verdict::Skip("squared magnitude not representable") }
    let n2 = norm2(&i, z.0, z.1);
    let (n, en, ep) = (n2.sqrt().f(), mag_err(&i, n2.f()), polar_err(&i, m, a));
    let am = m.abs();
    let room = top(&i) * if i.is_float() { 0.25 } else { 1.0 } - 3.0 * i.ulp().min(top(&i));
    if !((am + ep) * (x.abs() + y.abs()).max(n + en).max(1.0) < room) { return Verdict::Skip("product not representable") }
    if !(a.abs() + PI + 2.0 * arg_err(&i) < top(&i)) { return Verdict::Skip("angle not representable") }
    let r = match guard(|| h(p, z)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    for k in 1..6 {
        if !same2(&i, r.cart_polar[k], r.cart_polar[0]) { fail!("{} is {}, {} is {}", FORMS[0], show2(&i, r.cart_polar[0]), FORMS[k], show2(&i, r.cart_polar[k])) }
    }
    let (re, im) = phasor(exact(&i, p.0), exact(&i, p.1));
    let (dx, dy) = (exact(&i, z.0), exact(&i, z.1));
    let want = (dx.mul(re).sub(dy.mul(im)), dx.mul(im).add(dy.mul(re)));
    let small = if i.is_float() { 8.0 * tiny(&i) } else { 4.0 * i.ulp() };
    // In cartesian form.
    let tol = (x.abs() + y.abs()) * (ep + if i.is_float() { 3.0 * eps(&i) * am } else { 0.0 }) + small;
    let q = r.cart_polar[0];
    let e = off(&i, q.0, want.0).max(off(&i, q.1, want.1));
    if !(e <= tol) { fail!("{} times {} is {}, exact ({}, {}): {e:.3e} off, allowed {tol:.3e}", show2(&i, z), show2(&i, p), show2(&i, q), want.0.f(), want.1.f()) }
    // In polar form.
    let q = r.polar_cart;
    if (m == 0.0 || n == 0.0) && (i.f(q.0) != 0.0 || i.f(q.1) != 0.0) { fail!("{} times {} is {}, expected the zero with angle zero", show2(&i, p), show2(&i, z), show2(&i, q)) }
    let tp = am * en + am * n * (arg_err(&i) + if i.is_float() { eps(&i) * (8.0 + 2.0 * a.abs()) } else { 1e-15 }) + small;
    let (u, v) = phasor(exact(&i, q.0), exact(&i, q.1));
    let e2 = u.sub(want.0).f().abs().max(v.sub(want.1).f().abs());
    if !(e2 <= tp) { fail!("{} times {} is {}, which is ({}, {}), exact ({}, {}): {e2:.3e} off, allowed {tp:.3e}", show2(&i, p), show2(&i, z), show2(&i, q), u.f(), v.f(), want.0.f(), want.1.f()) }
    let coarse = tol > 0.5 * am * n;
    pass_r(!coarse && m != 0.0 && a != 0.0 && x != 0.0 && y != 0.0, if coarse { "coarse" } else { "polar by cartesian" }, (e / tol).max(e2 / tp))
}

fn main() {
    let mut subs = vec![];
    fn reg1(i: Info, f: F, g: G, d: Fd, out: &mut Vec<Sub>) {
        let n = if i.kind == Kind::Fx { 8_000 } else { 100_000 };
        let s = Sub::new(format!("polar by polar {}", i.name), move |c| check_polar(i, f, c)).show(show_words(i));
        out.push(s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1, 2, 3], gen::words(vec![factor(&i), mix(1, factor(&i), 1, gen::any_word(&i)), factor(&i), mix(1, factor(&i), 1, gen::any_word(&i))]))));
        let s = Sub::new(format!("polar by scalar {}", i.name), move |c| check_scalar(i, g, d, c)).show(show_words(i));
        out.push(s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1, 2], gen::words(vec![mix(1, factor(&i), 1, gen::any_word(&i)), gen::any_word(&i), mix(1, factor(&i), 1, gen::any_word(&i)), gen::int(0, 1)]))));
    }
    fn reg2(i: Info, h: H, out: &mut Vec<Sub>) {
        let n = if i.is_float() { 200_000 } else { 8_000 };
        let s = Sub::new(format!("polar by cartesian {}", i.name), move |c| check_mixed(i, h, c)).show(show_words(i));
        let f = move || if i.is_float() { gen::float_mid(&i, 20) } else { mix(1, part(&i), 2, gen::fx_range(&i, -2 * i.one(), 2 * i.one())) };
        out.push(s.gen(n, n * DEEP, move || gen::related(&i, &[0, 2, 3], gen::words(vec![f(), angle(&i), f(), f()]))));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg1(<$t as Sc>::I, f::<$t>, g::<$t>, d::<$t>, &mut subs) } }
    signed_reals!(reg);
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, h::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C06",
        rule: "magnitudes, angles and parts non-zero, and the accuracy of the type at that place finer than half the magnitude",
        assumptions: &["reference for mixed products: double-double trigonometry", "products and angle sums outside the type are outside the domain"],
        subs,
        findings: vec![],
    })
}
