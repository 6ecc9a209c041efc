//! C24: fixed-point atan and atan2.
use props::*;

type F = fn(i128) -> i128;
type G = fn(i128, i128) -> i128;
fn f<T: Sgn>(w: i128) -> i128 { T::v(w).mixed_atan().w() }
fn g<T: Sgn>(y: i128, x: i128) -> i128 { T::v(y).mixed_atan2(T::v(x)).w() }

fn check1(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    let r = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("atan panics: {e}") };
    let want = DD::atan2(i.dd(w), DD::new(1.0));
    let (e, tol) = (i.ulps(r, want), atan_tol(&i));
    if !(e <= tol) { fail!("atan is {}, exact {}: {e:.2} resolution steps off, allowed {tol:.2}", i.show(r), want.f()) }
    pass_r(w != 0, if w.abs() <= i.one() { "atan, up to 1" } else { "atan, beyond 1" }, e / tol)
}

fn check2(i: Info, g: G, c: &[i128]) -> Verdict {
    let (y, x) = (c[0], c[1]);
    if y == 0 && x == 0 { return Verdict::Skip("atan2(0, 0)") }
    let r = match guard(|| g(y, x)) { Ok(r) => r, Err(e) => fail!("atan2 panics: {e}") };
    let (a, b) = (i.dd(y), i.dd(x));
    // A common scale keeps the reference's products in range.
    let want = DD::atan2(a, b);
    let tol = atan_tol(&i);
    // The negative real axis may be given either sign when y is zero.
    let mut e = i.ulps(r, want);
    if y == 0 { e = e.min(i.ulps(r, want.neg())) }
    if !(e <= tol) { fail!("atan2 is {}, exact {}: {e:.2} resolution steps off, allowed {tol:.2}", i.show(r), want.f()) }
    pass_r(x != 0 && y != 0, if y == 0 || x == 0 { "atan2, axis" } else if x > 0 { "atan2, right half plane" } else { "atan2, left half plane" }, e / tol)
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, g::<$t>, &mut subs) } }
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        unary_fixed("atan", i, f, check1, None, 10_000, out);
        let s = Sub::new(format!("atan2 {}", i.name), move |c| check2(i, g, c)).show(show_words(i));
        out.push(if i.bits == 8 {
            s.sweep(1 << 16, move |k, c| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) })
        } else {
            s.gen(20_000, 20_000 * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![
                mix(3, gen::fx_any(&i), 1, gen::fx_range(&i, -i.one(), i.one())),
                mix(3, gen::fx_any(&i), 1, gen::fx_range(&i, -i.one(), i.one())),
            ])))
        });
    }
    signed_fixed!(reg);
    kit::main(Property {
        id: "C24",
        rule: "atan: argument non-zero; atan2: both operands non-zero",
        assumptions: &["reference: double-double arctangent", "atan2(0, 0) is left open"],
        subs,
        findings: vec![],
    })
}
