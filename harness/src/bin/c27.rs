//! C27: polynomial sine and cosine.
use props::*;

type F = fn(i128) -> [i128; 2];
type G = fn(i128) -> i128;
fn sine<T: Sgn>(w: i128) -> [i128; 2] { let x = T::v(w); [trigonometry::sin(x).w(), trigonometry::sin(-x).w()] }
fn cosine<T: Sgn>(w: i128) -> i128 { trigonometry::cos(T::v(w)).w() }

const POLY: f64 = 4e-6;
/// Rounding of the polynomial, in resolution steps.
fn steps(_i: &Info) -> f64 { 6.0 }

fn check_sin(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    if i.is_float() && !(i.f(w).abs() <= PI) { return Verdict::Skip("angle not wrapped") }
    let x = exact(&i, w);
    let r = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("sin panics: {e}") };
    let tol = POLY + steps(&i) * res(&i, 1.0);
    let e = off(&i, r[0], x.sin());
    if !(e <= tol) { fail!("sin is {}, exact {}: {e:e} off, allowed {tol:e}", i.show(r[0]), x.sin().f()) }
    if i.is_float() {
        if i.f(r[0]) != -i.f(r[1]) { fail!("sin(x) is {}, sin(-x) {}", i.show(r[0]), i.show(r[1])) }
    } else if off(&i, r[1], x.sin().neg()) > tol { fail!("sin(-x) is {}, exact {}", i.show(r[1]), -x.sin().f()) }
    pass_r(w != 0, if x.hi.abs() > PI / 2.0 { "sine, folded" } else { "sine" }, ratio(&i, e, tol))
}
/// Share of the tolerance beyond the polynomial's own error.
fn ratio(i: &Info, e: f64, tol: f64) -> f64 { if i.is_float() { e / tol } else { (e - POLY).max(0.0) / (tol - POLY) } }

fn check_cos(i: Info, g: G, c: &[i128]) -> Verdict {
    let w = c[0];
    if !i.is_float() && w + i.w(PI) / 2 > i.max() { return Verdict::Skip("shifted angle not representable") }
    if i.is_float() && !i.f(w).is_finite() { return Verdict::Skip("not finite") }
    let x = exact(&i, w);
    let r = match guard(|| g(w)) { Ok(r) => r, Err(e) => fail!("cos panics: {e}") };
    // The shift rounds and every turn adds the rounding of the type's pi.
    let slack = if i.is_float() { 4.0 * eps(&i) * x.hi.abs() } else { 2.0 * turns(x.hi.abs() + 2.0) * i.ulp().max(1.3e-16) };
    let tol = POLY + (2.0 + steps(&i)) * res(&i, 1.0) + slack;
    if tol > 0.3 {
        if !(i.f(r).abs() <= 1.0 + POLY + (2.0 + steps(&i)) * res(&i, 1.0)) { fail!("cos is {}: out of range", i.show(r)) }
        return pass(true, "cosine, range only");
    }
    let e = off(&i, r, x.cos());
    if !(e <= tol) { fail!("cos is {}, exact {}: {e:e} off, allowed {tol:e}", i.show(r), x.cos().f()) }
    pass_r(w != 0, if turns(x.hi) > 0.0 { "cosine, beyond a half turn" } else { "cosine" }, ratio(&i, e, tol))
}

fn reg2(i: Info, f: F, g: G, subs: &mut Vec<Sub>) {
    if i.is_float() {
        subs.push(Sub::new(format!("sin {}", i.name), move |c| check_sin(i, f, c)).show(show_words(i))
            .gen(100_000, 100_000 * DEEP, move || gen::words(vec![mix(2, gen::float_range(&i, -PI, PI, vec![0.0, PI / 2.0, -PI / 2.0, PI / 6.0]), 1, gen::float_mid(&i, 1))]))) ;
        subs.push(Sub::new(format!("cos {}", i.name), move |c| check_cos(i, g, c)).show(show_words(i))
            .gen(100_000, 100_000 * DEEP, move || gen::words(vec![mix(3, gen::float_range(&i, -7.0, 7.0, vec![0.0, PI / 2.0, -PI / 2.0, PI]), 2, mix(1, gen::float_mid(&i, 20), 1, gen::any_word(&i)))])));
        return;
    }
    let p = i.w(PI);
    let n = 20_000;
    let s = Sub::new(format!("sin {}", i.name), move |c| check_sin(i, f, c)).show(show_words(i));
    subs.push(if i.bits <= 16 { s.sweep((2 * p + 1) as u64, move |k, c| c.push(k as i128 - p)) }
        else { s.gen(n, n * DEEP, move || gen::words(vec![gen::range(-p, p, vec![p / 2, -p / 2, p - 1, p / 6])])) });
    let s = Sub::new(format!("cos {}", i.name), move |c| check_cos(i, g, c)).show(show_words(i));
    subs.push(if i.bits <= 16 { s.sweep((i.max() - i.min() + 1) as u64, move |k, c| c.push(i.min() + k as i128)) }
        else { s.gen(n, n * DEEP, move || gen::words(vec![mix(2, gen::range((-4 * p).max(i.min()), (4 * p).min(i.max()), vec![p / 2, -p / 2, p, -p]), 1, gen::fx_any(&i))])) });
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, sine::<$t>, cosine::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C27",
        rule: "angle other than zero",
        assumptions: &["reference: double-double sine and cosine", "float sines outside [-pi, pi] are left open", "where the angle's accumulated resolution error exceeds 0.3 only the range and the absence of panics are decided"],
        subs,
        findings: vec![],
    })
}
