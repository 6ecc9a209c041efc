//! C10: complex exponential.
use props::*;

type F = fn(i128, i128) -> (i128, i128, i128);
fn f<T: Sgn>(re: i128, im: i128) -> (i128, i128, i128) {
    let r = cw(cv::<T>(re, im).mixed_exp());
    (r.0, r.1, T::v(re).mixed_exp().w())
}

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let (x, y) = (i.f(c[0]), i.f(c[1]));
    let e = exact(&i, c[0]).exp();
    let ee = if i.is_float() { 2.0 * eps(&i) * e.f() + 2.0 * tiny(&i) } else { exp_tol(&i, x, e.f()) * i.ulp() };
    if !(e.f() + ee < top(&i)) { return Verdict::Skip("exponential not representable") }
    let (re, im, real) = match guard(|| f(c[0], c[1])) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let (s, co) = exact(&i, c[1]).sin_cos();
    let mut worst = 0.0f64;
    for (part, got, want) in [("real", re, co), ("imaginary", im, s)] {
        let w = e.mul(want);
        let tol = if i.is_float() { 4.0 * eps(&i) * w.f().abs() + 4.0 * tiny(&i) + 1e-28 * e.f() }
            else { ee * want.f().abs() + (e.f() + ee) * (i.ulp() * sincos_tol(&i) + 2.0 * turns(y) * i.ulp().max(1.3e-16)) + i.ulp() };
        let d = off(&i, got, w);
        if !(d <= tol) { fail!("{part} part is {}, exact {}: {d:.3e} off, allowed {tol:.3e}", i.show(got), w.f()) }
        worst = worst.max(d / tol);
    }
    if y == 0.0 && i.is_float() {
        if re != real { fail!("real argument: {}, the real exponential is {}", i.show(re), i.show(real)) }
        if i.f(im) != 0.0 { fail!("real argument: imaginary part {}", i.show(im)) }
        return pass_r(x != 0.0, "real argument", worst);
    }
    pass_r(x != 0.0 && y != 0.0, if x < 0.0 { "decaying" } else { "growing" }, worst)
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, out: &mut Vec<Sub>) {
        let n = if i.is_float() { 400_000 } else { 20_000 };
        let s = Sub::new(format!("exp {}", i.name), move |c| check(i, f, c)).show(show_words(i));
        if i.is_float() {
            let (lo, hi) = if i.kind == Kind::F32 { (-100.0, 88.0) } else { (-690.0, 709.0) };
            out.push(s.gen(n, n * DEEP, move || gen::words(vec![mix(2, gen::float_range(&i, lo, hi, vec![]), 1, gen::float_range(&i, -3.0, 3.0, vec![])),
                mix(2, gen::float_range(&i, -7.0, 7.0, vec![]), 1, gen::float_range(&i, -1e5, 1e5, vec![]))])));
            return;
        }
        if i.bits == 8 {
            out.push(s.sweep(1 << 16, move |k, c| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) }));
            return;
        }
        let hi = i.w((i.maxf().ln() + 0.1).min(i.maxf()));
        let lo = (-40 * i.one()).max(i.min());
        out.push(s.gen(n, n * DEEP, move || gen::words(vec![mix(4, gen::fx_range(&i, lo.max(-4 * i.one()), hi), 1, mix(4, gen::fx_range(&i, lo, hi), 1, gen::fx_range(&i, i.min(), hi))), angle(&i)])));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C10",
        rule: "both parts of the argument non-zero, or a non-zero real argument",
        assumptions: &["reference: double-double exponential and trigonometry", "arguments whose exponential plus its error exceeds the maximum are outside the domain"],
        subs,
        findings: vec![],
    })
}
