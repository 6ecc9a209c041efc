//! C11: complex integer power of fixed-point numbers.
use props::*;

type P = (i128, i128);
type F = fn(P, usize) -> P;
fn f<T: Sgn + fixed::traits::FixedSigned>(z: P, n: usize) -> P { cw(powi(cv::<T>(z.0, z.1), n)) }

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let (z, n) = ((c[0], c[1]), c[2] as u32);
    if !norm_fits(&i, z.0, z.1) { return Verdict::Skip("squared magnitude not representable") }
    let n2 = norm2(&i, z.0, z.1).f();
    let (m, em) = (n2.sqrt(), mag_err(&i, n2));
    let k = n as f64;
    let u = i.ulp();
    // Magnitude and its error, everything below in units of the type.
    let mn = m.powi(n as i32);
    let above = (m + em).max(1.0);
    let emn = if n == 0 { 0.0 } else { k * (m + em).powi(n as i32 - 1) * em + k * above.powi(n as i32 - 1) * u };
    if !(above.powi(n as i32) + emn + 2.0 * u < i.maxf()) { return Verdict::Skip("power not representable") }
    if k >= i.maxf() { return Verdict::Skip("exponent not representable") }
    let zero = n2 == 0.0;
    let arg = if zero { DD::new(PI / 2.0) } else { DD::atan2(i.dd(z.1), i.dd(z.0)) };
    let ea = atan_tol(&i) * u;
    let phi = arg.times(k);
    if !(phi.f().abs() + k * ea < i.maxf()) || PI + ea >= i.maxf() { return Verdict::Skip("angle not representable") }
    let r = match guard(|| f(z, n as usize)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    // The product of n factors.
    let (x, y) = (i.dd(z.0), i.dd(z.1));
    let mut p = (DD::new(1.0), DD::new(0.0));
    for _ in 0..n { p = (p.0.mul(x).sub(p.1.mul(y)), p.0.mul(y).add(p.1.mul(x))) }
    let tol = emn + (mn + emn) * (k * ea + u * sincos_tol(&i) + 2.0 * turns(phi.f()) * u.max(1.3e-16)) + 2.0 * u;
    let e = off(&i, r.0, p.0).max(off(&i, r.1, p.1));
    if !(e <= tol) { fail!("{} to the power {n} is {}, exact ({}, {}): {e:.3e} off, allowed {tol:.3e}", show2(&i, z), show2(&i, r), p.0.f(), p.1.f()) }
    let coarse = tol > 0.5 * mn;
    pass_r(!coarse && n > 0 && z.0 != 0 && z.1 != 0, if coarse { "coarse" } else { match n { 0 => "power 0", 1 => "power 1", 2 => "power 2", 3..=5 => "power 3 to 5", _ => "power 6 and up" } }, e / tol)
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, out: &mut Vec<Sub>) {
        let s = Sub::new(format!("power {}", i.name), move |c| check(i, f, c))
            .show(move |c| format!("{}: {} to the power {}", i.name, show2(&i, (c[0], c[1])), c[2]));
        if i.bits == 8 {
            out.push(s.sweep(8 << 16, move |k, c| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8 & 255) as i128); c.push((k >> 16) as i128) }));
            return;
        }
        let n = 20_000;
        let one = i.one();
        let r = move || mix(1, part(&i), 2, gen::fx_range(&i, -2 * one, 2 * one));
        out.push(s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![r(), r(), mix(4, gen::int(0, 6), 1, gen::int(0, 40))]))));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, &mut subs) } }
    signed_fixed!(reg);
    kit::main(Property {
        id: "C11",
        rule: "exponent positive, both parts non-zero, and the accuracy of the type at that place finer than half the result",
        assumptions: &["reference: double-double complex product of that many factors"],
        subs,
        findings: vec![],
    })
}
