//! C23: fixed-point arcsine and arccosine on [-1, 1].
use props::*;

type F = fn(i128) -> (i128, i128);
fn f<T: Sgn>(w: i128) -> (i128, i128) {
    let x = T::v(w);
    (x.mixed_asin().w(), x.mixed_acos().w())
}

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    let (s, k) = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let ac = i.dd(w).acos();
    let (es, ek) = (i.ulps(s, HALF_PI_DD.sub(ac)), i.ulps(k, ac));
    let tol = acos_tol(&i);
    if !(ek <= tol) { fail!("acos is {}, exact {}: {ek:.2} resolution steps off, allowed {tol:.2}", i.show(k), ac.f()) }
    if !(es <= tol) { fail!("asin is {}, exact {}: {es:.2} resolution steps off, allowed {tol:.2}", i.show(s), HALF_PI_DD.sub(ac).f()) }
    if i.ulps(s + k, HALF_PI_DD) > 1.01 { fail!("asin {} and acos {} do not sum to pi/2", i.show(s), i.show(k)) }
    pass_r(w != 0, if w == i.one() || w == -i.one() { "at the ends" } else { "inside" }, es.max(ek) / tol)
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => {{
        let i = <$t as Sc>::I;
        unary_fixed("asin acos", i, f::<$t> as F, check, Some((-i.one(), i.one())), 12_000, &mut subs)
    }} }
    signed_fixed!(reg);
    kit::main(Property {
        id: "C23",
        rule: "argument non-zero",
        assumptions: &["reference: double-double arccosine"],
        subs,
        findings: vec![],
    })
}
