//! C09: magnitude and argument.
use props::*;

type F = fn(i128, i128) -> R;
type G = fn(i128, i128) -> [i128; 6];
struct R { mags: [i128; 5], abs_im: i128, args: [i128; 3] }
const MAGS: [&str; 5] = ["mag()", "abs()", "abs(z)", "mixed_abs().re", "to_polar().mag"];
const ARGS: [&str; 3] = ["arg()", "ang()", "to_polar().ang"];
fn f<T: Sgn>(re: i128, im: i128) -> R {
    let z = cv::<T>(re, im);
    let a = z.mixed_abs();
    let p = z.to_polar();
    R { mags: [z.mag().w(), Mag::abs(&z).w(), abs(z).w(), a.re.w(), p.mag.w()], abs_im: a.im.w(), args: [z.arg().w(), z.ang().w(), p.ang.w()] }
}
fn g<T: Sgn>(m: i128, a: i128) -> [i128; 6] {
    let z = pv::<T>(m, a);
    let b = z.mixed_abs();
    [z.mag().w(), Mag::abs(&z).w(), z.arg().w(), z.ang().w(), b.mag.w(), b.ang.w()]
}

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let (re, im) = (c[0], c[1]);
    if !norm_fits(&i, re, im) { return Verdict::Skip("squared magnitude not representable") }
    let r = match guard(|| f(re, im)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    for k in 1..5 {
        if r.mags[k] != r.mags[0] { fail!("{} is {}, mag() {}", MAGS[k], i.show(r.mags[k]), i.show(r.mags[0])) }
    }
    for k in 1..3 {
        if r.args[k] != r.args[0] { fail!("{} is {}, arg() {}", ARGS[k], i.show(r.args[k]), i.show(r.args[0])) }
    }
    if i.f(r.abs_im) != 0.0 { fail!("mixed_abs has imaginary part {}", i.show(r.abs_im)) }
    let n2 = norm2(&i, re, im);
    let (want, tol) = (n2.sqrt(), mag_err(&i, n2.f()));
    let e = off(&i, r.mags[0], want);
    if !(e <= tol) { fail!("magnitude is {}, exact {}: {e:.3e} off, allowed {tol:.3e}", i.show(r.mags[0]), want.f()) }
    if i.f(re) == 0.0 && i.f(im) == 0.0 { return pass(false, "zero") }
    let want = DD::atan2(exact(&i, im), exact(&i, re));
    let at = arg_err(&i);
    let mut ea = off(&i, r.args[0], want);
    if i.f(im) == 0.0 { ea = ea.min(off(&i, r.args[0], want.neg())) }
    if !(ea <= at) { fail!("argument is {}, exact {}: {ea:.3e} off, allowed {at:.3e}", i.show(r.args[0]), want.f()) }
    if i.f(r.args[0]).abs() > PI + if i.is_float() { eps(&i) * 2.0 } else { at } { fail!("argument {} is outside [-pi, pi]", i.show(r.args[0])) }
    pass_r(i.f(re) != 0.0 && i.f(im) != 0.0, match (i.f(re) < 0.0, i.f(im) < 0.0) {
        (false, false) => "first quadrant", (true, false) => "second quadrant", (true, true) => "third quadrant", _ => "fourth quadrant" }, (e / tol).max(ea / at))
}
fn check_polar(i: Info, g: G, c: &[i128]) -> Verdict {
    let r = match guard(|| g(c[0], c[1])) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    for (k, n) in [(0, "mag()"), (1, "abs()"), (4, "mixed_abs().mag")] {
        if !same(&i, r[k], c[0]) { fail!("polar {n} is {}, magnitude {}", i.show(r[k]), i.show(c[0])) }
    }
    for (k, n) in [(2, "arg()"), (3, "ang()")] {
        if !same(&i, r[k], c[1]) { fail!("polar {n} is {}, angle {}", i.show(r[k]), i.show(c[1])) }
    }
    if i.f(r[5]) != 0.0 { fail!("polar mixed_abs has angle {}", i.show(r[5])) }
    pass(c[0] != 0 && c[1] != 0, "polar")
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, g: G, out: &mut Vec<Sub>) {
        let n = if i.is_float() { 200_000 } else { 12_000 };
        let s = Sub::new(format!("cartesian {}", i.name), move |c| check(i, f, c)).show(show_words(i));
        out.push(if i.bits == 8 {
            s.sweep(1 << 16, move |k, c| { c.push(i.min() + (k & 255) as i128); c.push(i.min() + (k >> 8) as i128) })
        } else {
            s.gen(n, n * DEEP, move || gen::related(&i, &[0, 1], gen::words(vec![part(&i), part(&i)])))
        });
        out.push(Sub::new(format!("polar {}", i.name), move |c| check_polar(i, g, c)).show(show_words(i)).gen(2_000, 20_000, move || gen::words(vec![gen::any_word(&i), gen::any_word(&i)])));
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, f::<$t>, g::<$t>, &mut subs) } }
    signed_reals!(reg);
    kit::main(Property {
        id: "C09",
        rule: "both parts non-zero",
        assumptions: &["reference: double-double square root and arctangent", "the argument of zero is left open"],
        subs,
        findings: vec![],
    })
}
