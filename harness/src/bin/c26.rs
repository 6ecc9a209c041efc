//! C26: NIIRF square root.
use props::*;

/// niirf with two iterations, mixed_niirf, niirf with k iterations, mixed_sqrt.
type F = fn(i128, i128) -> [i128; 4];
fn f<T: Sc + MixedReal + MixedZero + MixedAbs + MixedOps + MixedPowi + MixedSqrt>(w: i128, k: i128) -> [i128; 4] {
    let x = T::v(w);
    [trigonometry::sqrt::niirf(x, 2).w(), x.mixed_niirf().w(), trigonometry::sqrt::niirf(x, k as usize).w(), x.mixed_sqrt().w()]
}

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let (w, k) = (c[0], c[1]);
    let x = i.f(w);
    if x.is_nan() { return Verdict::Skip("NaN") }
    if !i.is_float() && w == i.min() && i.signed { return Verdict::Skip("absolute value not representable") }
    let r = match guard(|| f(w, k)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if !same(&i, r[0], r[1]) { fail!("mixed_niirf gives {}, niirf with two iterations {}", i.show(r[1]), i.show(r[0])) }
    if x == 0.0 {
        if i.f(r[0]) != 0.0 || i.f(r[2]) != 0.0 || i.f(r[3]) != 0.0 { fail!("root of zero is {} ({k} iterations: {}, mixed_sqrt: {})", i.show(r[0]), i.show(r[2]), i.show(r[3])) }
        return pass(false, "zero");
    }
    if x.is_infinite() {
        if i.f(r[0]) != f64::INFINITY { fail!("root of infinity is {}", i.show(r[0])) }
        return pass(false, "infinity");
    }
    let (e, tol, m) = niirf_error(&i, w, r[0]);
    let mut known = false;
    if !(e <= tol) {
        if e <= tol + niirf_known(&i, m) - 5e-4 { known = true }
        else { fail!("root is {}, exact {}: {e:.3e} off on the normalised scale ({m:.6}), allowed {tol:.3e}", i.show(r[0]), root(&i, w).f()) }
    }
    let (e3, tol3, _) = niirf_error(&i, w, r[2]);
    let tol3 = tol3 - 5e-4 + if k == 2 { niirf_known(&i, m) } else { niirf_method(k) };
    if !(e3 <= tol3) {
        fail!("with {k} iterations the root is {}, exact {}: {e3:.3e} off on the normalised scale ({m:.6}), allowed {tol3:.3e}", i.show(r[2]), root(&i, w).f())
    }
    // The general square root of fixed-point types promises no less; that of floats is decided by C20.
    let (es, tols, _) = niirf_error(&i, w, r[3]);
    if !i.is_float() && !(es <= tols + niirf_known(&i, m) - 5e-4) {
        fail!("mixed_sqrt is {}, exact {}: {es:.3e} off on the normalised scale ({m:.6}), allowed {tols:.3e}", i.show(r[3]), root(&i, w).f())
    }
    if i.signed {
        let neg = if i.is_float() { i.w(-x) } else { -w };
        let q = match guard(|| f(neg, k)) { Ok(q) => q, Err(e) => fail!("panics on the negated argument: {e}") };
        if q[0] != r[0] || q[2] != r[2] || (q[3] != r[3] && !i.is_float()) { fail!("root of {} is {}, of {} {}", i.show(w), i.show(r[0]), i.show(neg), i.show(q[0])) }
    }
    let (lo, hi) = if i.kind == Kind::F32 { (1e-37, 8e37) } else { (1e-300, 1e300) };
    if i.is_float() && lo < x.abs() && x.abs() < hi {
        let q = match guard(|| f(i.w(4.0 * x), k)) { Ok(q) => q, Err(e) => fail!("panics on four times the argument: {e}") };
        if i.f(q[0]) != 2.0 * i.f(r[0]) { fail!("root of four times the argument is {}, not twice {}", i.show(q[0]), i.show(r[0])) }
    }
    if known { return Verdict::Known("C26-two-iterations") }
    pass_r(true, if m < 0.0 { "" } else if x.abs() < 0.25 { "normalised up" } else if x.abs() >= 1.0 { "normalised down" } else { "as is" }, (e / tol).max(e3 / tol3))
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, out: &mut Vec<Sub>) {
        let s = Sub::new(format!("niirf {}", i.name), move |c| check(i, f, c)).show(move |c| format!("{}: {}, {} iterations", i.name, i.show(c[0]), c[1]));
        out.push(if i.bits <= 16 {
            s.sweep(1 << i.bits, move |k, c| { c.push(i.min() + k as i128); c.push(1 + (k % 6) as i128) })
        } else {
            let n = if i.is_float() { 200_000 } else { 10_000 };
            s.gen(n, n * DEEP, move || gen::words(vec![gen::any_word(&i), gen::int(1, 7)]))
        });
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, &mut subs) } }
    signed_reals!(reg);
    unsigned_fixed!(reg);
    // A dense sample of one normalised octave in floats.
    let i = <f32 as Sc>::I;
    subs.push(Sub::new("niirf octave f32", move |c| check(i, f::<f32>, c)).sweep(1 << 20, |k, c| { c.push(0x3e800000 + (k as i128) * 16 + 5); c.push(1 + (k % 6) as i128) })
        .show(move |c| format!("f32: {}, {} iterations", i.show(c[0]), c[1])));
    kit::main(Property {
        id: "C26",
        rule: "argument neither zero nor infinite",
        assumptions: &["reference: double-double square root"],
        subs,
        findings: vec![Finding {
            id: "C26-two-iterations",
            text: "niirf(x, 2) is up to 7.0e-4 (documented: 5e-4) off for normalised arguments just above 7/16, 8/16, 9/16 and 10/16, e.g. x = 0.501",
            reproduces: Box::new(|| (trigonometry::sqrt::niirf(0.501f64, 2) - 0.501f64.sqrt()).abs() > 5e-4),
        }],
    })
}
