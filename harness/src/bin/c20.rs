//! C20: float exponentials, logarithms, roots and rounding.
use props::floatfn::{cover, Fun};
use props::*;

macro_rules! one { ($subs:ident, $name:literal, $m:ident, $r:expr, $a:expr, $b:expr) => {
    cover(Fun { name: $name, two: false, s: |x, _| x.$m(), d: |x, _| x.$m(), r: |x, _| { #[allow(unused_unsafe)] unsafe { $r(x) } }, tol: ($a, $b) }, 20_000, &mut $subs)
} }

fn main() {
    let mut subs = vec![];
    one!(subs, "exp", mixed_exp, libc::exp, 4.0, 4.0);
    one!(subs, "exp2", mixed_exp2, libc::exp2, 4.0, 4.0);
    one!(subs, "exp10", mixed_exp10, libc::exp10, 6.0, 8.0);
    one!(subs, "log", mixed_log, libc::log, 4.0, 4.0);
    one!(subs, "log2", mixed_log2, libc::log2, 4.0, 4.0);
    one!(subs, "log10", mixed_log10, libc::log10, 4.0, 4.0);
    one!(subs, "cbrt", mixed_cbrt, libc::cbrt, 4.0, 4.0);
    one!(subs, "sqrt", mixed_sqrt, f64::sqrt, 0.0, 0.0);
    one!(subs, "ceil", mixed_ceil, f64::ceil, 0.0, 0.0);
    one!(subs, "floor", mixed_floor, f64::floor, 0.0, 0.0);
    cover(Fun { name: "pow", two: true, s: |x, y| x.mixed_pow(y), d: |x, y| x.mixed_pow(y), r: |x, y| unsafe { libc::pow(x, y) }, tol: (4.0, 4.0) }, 100_000, &mut subs);
    kit::main(Property {
        id: "C20",
        rule: "result neither zero, infinite nor NaN",
        assumptions: &["reference: glibc in double precision, itself within a unit in the last place"],
        subs,
        findings: vec![],
    })
}
