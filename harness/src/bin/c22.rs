//! C22: fixed-point sine and cosine.
use props::*;

type F = fn(i128) -> [i128; 4];
fn f<T: Sgn>(w: i128) -> [i128; 4] {
    let x = T::v(w);
    let (s, c) = x.mixed_sincos();
    [x.mixed_sin().w(), x.mixed_cos().w(), s.w(), c.w()]
}

fn check(i: Info, f: F, c: &[i128]) -> Verdict {
    let w = c[0];
    let r = match guard(|| f(w)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    if r[0] != r[2] || r[1] != r[3] {
        fail!("mixed_sincos gives ({}, {}), mixed_sin {} and mixed_cos {}", i.show(r[2]), i.show(r[3]), i.show(r[0]), i.show(r[1]))
    }
    let x = i.dd(w);
    let halfturns = (x.hi.abs() / PI).floor();
    let tol = sincos_tol(&i) + halfturns;
    let (s, c) = x.sin_cos();
    let (es, ec) = (i.ulps(r[0], s), i.ulps(r[1], c));
    if tol * i.ulp() > 0.9 {
        // Angle resolution exhausted: only the range is decided.
        let lim = 1.0 + sincos_tol(&i) * i.ulp();
        if i.f(r[0]).abs() > lim || i.f(r[1]).abs() > lim { fail!("sin {} or cos {} out of range", i.show(r[0]), i.show(r[1])) }
        return pass(w != 0, "range only");
    }
    if !(es <= tol) { fail!("sin is {}, exact {}: {es:.2} resolution steps off, allowed {tol:.2}", i.show(r[0]), s.f()) }
    if !(ec <= tol) { fail!("cos is {}, exact {}: {ec:.2} resolution steps off, allowed {tol:.2}", i.show(r[1]), c.f()) }
    pass_r(w != 0, if halfturns == 0.0 { "within half a turn" } else { "beyond half a turn" }, es.max(ec) / tol)
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { unary_fixed("sincos", <$t as Sc>::I, f::<$t> as F, check, None, 8_000, &mut subs) } }
    signed_fixed!(reg);
    kit::main(Property {
        id: "C22",
        rule: "angle non-zero",
        assumptions: &["reference: double-double sine and cosine", "where the angle's accumulated resolution error exceeds 0.9 only the range and the absence of panics are decided"],
        subs,
        findings: vec![],
    })
}
