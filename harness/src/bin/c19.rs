//! C19: float trigonometric and hyperbolic functions.
use props::floatfn::{cover, Fun};
use props::*;

macro_rules! one { ($subs:ident, $name:literal, $m:ident, $r:ident, $a:expr, $b:expr) => {
    cover(Fun { name: $name, two: false, s: |x, _| x.$m(), d: |x, _| x.$m(), r: |x, _| unsafe { libc::$r(x) }, tol: ($a, $b) }, 20_000, &mut $subs)
} }

fn pair<T: Sgn>(w: i128) -> [i128; 4] {
    let x = T::v(w);
    let (s, c) = x.mixed_sincos();
    [s.w(), c.w(), x.mixed_sin().w(), x.mixed_cos().w()]
}
fn check_pair(i: Info, f: fn(i128) -> [i128; 4], c: &[i128]) -> Verdict {
    let r = f(c[0]);
    if !same(&i, r[0], r[2]) || !same(&i, r[1], r[3]) {
        fail!("mixed_sincos gives ({}, {}), mixed_sin {} and mixed_cos {}", i.show(r[0]), i.show(r[1]), i.show(r[2]), i.show(r[3]))
    }
    pass(i.f(c[0]).is_finite() && i.f(c[0]) != 0.0, "pair")
}

fn main() {
    let mut subs = vec![];
    one!(subs, "sin", mixed_sin, sin, 2.0, 2.0);
    one!(subs, "cos", mixed_cos, cos, 2.0, 2.0);
    one!(subs, "tan", mixed_tan, tan, 2.0, 2.0);
    one!(subs, "asin", mixed_asin, asin, 2.0, 2.0);
    one!(subs, "acos", mixed_acos, acos, 2.0, 2.0);
    one!(subs, "atan", mixed_atan, atan, 2.0, 2.0);
    one!(subs, "sinh", mixed_sinh, sinh, 4.0, 4.0);
    one!(subs, "cosh", mixed_cosh, cosh, 4.0, 4.0);
    one!(subs, "tanh", mixed_tanh, tanh, 4.0, 4.0);
    one!(subs, "asinh", mixed_asinh, asinh, 4.0, 4.0);
    one!(subs, "acosh", mixed_acosh, acosh, 4.0, 4.0);
    one!(subs, "atanh", mixed_atanh, atanh, 4.0, 4.0);
    cover(Fun { name: "atan2", two: true, s: |y, x| y.mixed_atan2(x), d: |y, x| y.mixed_atan2(x), r: |y, x| unsafe { libc::atan2(y, x) }, tol: (2.0, 2.0) }, 100_000, &mut subs);
    for (i, f) in [(<f32 as Sc>::I, pair::<f32> as fn(i128) -> [i128; 4]), (<f64 as Sc>::I, pair::<f64>)] {
        subs.push(Sub::new(format!("sincos {}", i.name), move |c| check_pair(i, f, c)).show(show_words(i))
            .gen(100_000, 100_000 * DEEP, move || gen::words(vec![gen::any_word(&i)])));
    }
    kit::main(Property {
        id: "C19",
        rule: "finite non-zero argument and result",
        assumptions: &["reference: glibc in double precision, itself within a unit in the last place"],
        subs,
        findings: vec![],
    })
}
