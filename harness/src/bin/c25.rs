//! C25: fixed-point exponential.
use props::*;

type F = fn(i128) -> i128;
fn f<T: Sgn>(w: i128) -> i128 { T::v(w).mixed_exp().w() }

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    let want = i.dd(w).exp();
    let tol = exp_tol(&i, i.f(w), want.f());
    if want.f() / i.ulp() + tol >= i.max() as f64 { return Verdict::Skip("exponential not representable") }
    let r = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let e = i.ulps(r, want);
    if !(e <= tol) { fail!("exp is {}, exact {}: {e:.2} resolution steps off, allowed {tol:.2}", i.show(r), want.f()) }
    pass_r(w != 0, if w < 0 { "negative" } else { "non-negative" }, e / tol)
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => {{
        let i = <$t as Sc>::I;
        let top = i.w((i.maxf().ln() + 0.1).min(i.maxf()));
        unary_fixed("exp", i, f::<$t> as F, check, Some((i.min(), top)), 3_000, &mut subs);
        let s = Sub::new(format!("exp near {}", i.name), move |c| check(i, f::<$t>, c)).show(show_words(i));
        if i.bits > 16 {
            subs.push(s.gen(10_000, 10_000 * DEEP, move || gen::words(vec![gen::fx_range(&i, (-40 * i.one()).max(i.min()), top)])));
        }
    }} }
    signed_fixed!(reg);
    kit::main(Property {
        id: "C25",
        rule: "argument non-zero",
        assumptions: &["reference: double-double exponential", "arguments whose exponential plus tolerance exceeds the maximum are outside the domain"],
        subs,
        findings: vec![],
    })
}
