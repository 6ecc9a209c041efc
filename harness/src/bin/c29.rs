//! C29: number of scalar operations of the generic routines.
use props::user::{counted, Base, BUDGET, N};
use props::*;

const ROUTINES: [&str; 17] = ["wrap_phase", "sin", "cos", "atan2", "atan", "to_polar", "to_cartesian", "complex product", "complex quotient",
    "complex sum and difference", "complex with scalar", "polar products", "magnitude, argument, conjugate, exponential", "polar and cartesian", "sign", "niirf", "powi"];
const NIIRF: usize = 15;
const POWI: usize = 16;

type F = fn(usize, &[i128], u64) -> Result<u64, String>;
fn z<S: Sc>(a: i128, b: i128) -> Cartesian<N<S>> { Cartesian { re: N(S::v(a)), im: N(S::v(b)) } }
fn q<S: Sc>(a: i128, b: i128) -> Polar<N<S>> { Polar { mag: N(S::v(a)), ang: N(S::v(b)) } }
fn hide<T>(t: T) { std::hint::black_box(t); }

fn run<S: Sgn>(k: usize, c: &[i128], limit: u64) -> Result<u64, String> {
    let (a, b) = (N(S::v(c[0])), N(S::v(c[1])));
    let (x, y) = (z::<S>(c[0], c[1]), z::<S>(c[2], c[3]));
    let (p, r) = (q::<S>(c[0], c[1]), q::<S>(c[2], c[3]));
    counted(limit, || match k {
        0 => hide(trigonometry::wrap_phase(a)),
        1 => hide(trigonometry::sin(a)),
        2 => hide(trigonometry::cos(a)),
        3 => hide(trigonometry::atan::atan2(a, b)),
        4 => hide(trigonometry::atan::atan(a)),
        5 => hide((to_polar(x), x.to_polar())),
        6 => hide((to_cartesian(p), p.to_cartesian())),
        7 => hide((x * y, mul_cartesian(x, y))),
        8 => { hide((x / y, div_cartesian(x, y))); let mut w = x; w /= y; hide(w) }
        9 => { hide((x + y, x - y, complex::add(x, y), complex::sub(x, y))); let mut w = x; w += y; w -= x; hide(w) }
        10 => { hide((x + b, x - b, x * b, x / b, div_scalar_cartesian(x, b))); let mut w = x; w += b; w -= a; w /= b; hide(w) }
        11 => hide((p * r, mul_polar(p, r), p * b, p / b)),
        12 => { let w: Cartesian<N<S>> = x.conj(); hide((x.mag(), x.arg(), complex::abs(x), w, x.mixed_exp())) }
        13 => { hide((p * x, x * p)); let mut w = x; w *= r; hide(w) }
        14 => hide(trigonometry::sign(a)),
        NIIRF => hide(trigonometry::sqrt::niirf(a, 2)),
        _ => hide(trigonometry::powi(a, c[4] as usize)),
    })
}
/// Unsigned types have the filter root and the power.
fn run_u<S: Base>(k: usize, c: &[i128], limit: u64) -> Result<u64, String> {
    let a = N(S::v(c[0]));
    counted(limit, || if k == NIIRF { hide(trigonometry::sqrt::niirf(a, 2)) } else { hide(trigonometry::powi(a, c[4] as usize)) })
}

/// Allowed operations: several times what the routines need. Floats have a binade per exponent.
fn limit(i: &Info, k: usize, n: i128) -> u64 {
    match k {
        NIIRF => match i.kind { Kind::F64 => 64 * 160, Kind::F32 => 32 * 64, _ => 24 * i.bits as u64 + 100 },
        POWI => 4 * n as u64 + 16,
        _ => 200,
    }
}
fn check(i: Info, k: usize, f: F, c: &[i128]) -> Verdict {
    let lim = limit(&i, k, c[4]);
    match f(k, c, lim) {
        Err(e) if e.starts_with(BUDGET) => Verdict::Fail(format!("{}: more than {lim} scalar operations", ROUTINES[k])),
        // Overflow of a scalar operation: which values must not overflow is for the other properties.
        Err(_) => Verdict::Skip("a scalar operation overflows"),
        Ok(n) => pass_r(i.f(c[0]) != 0.0, if i.is_float() && !i.f(c[0]).is_finite() { "not finite" } else { "finite" }, n as f64 / lim as f64),
    }
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, f: F, ks: std::ops::Range<usize>, out: &mut Vec<Sub>) {
        for k in ks {
            let n = if i.is_float() { 8_000 } else { 1_000 };
            out.push(Sub::new(format!("{} {}", ROUTINES[k], i.name), move |c| check(i, k, f, c))
                .show(move |c| format!("{} {}: {}, exponent {}", ROUTINES[k], i.name, c[..4].iter().map(|w| i.show(*w)).collect::<Vec<_>>().join(", "), c[4]))
                .gen(n, n * DEEP, move || {
                    let any = || gen::any_word(&i);
                    // Bases whose powers stay representable, most of the time.
                    let base = if i.is_float() { any() } else { mix(3, gen::fx_range(&i, if i.signed { -(i.one().min(i.max())) } else { 0 }, i.one().min(i.max())), 1, any()) };
                    // Operands whose products stay representable.
                    let small = || if i.is_float() { any() } else { mix(2, factor(&i), 1, any()) };
                    if k == POWI { gen::words(vec![base, any(), any(), any(), mix(3, gen::int(0, 20), 1, gen::int(0, 2000))]) }
                    else { gen::words(vec![small(), small(), small(), small(), gen::just(0)]) }
                }));
        }
    }
    macro_rules! reg { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, run::<$t>, 0..17, &mut subs) } }
    signed_reals!(reg);
    macro_rules! regu { ($t:ty, $($r:tt)*) => { reg2(<$t as Sc>::I, run_u::<$t>, NIIRF..17, &mut subs) } }
    unsigned_fixed!(regu);
    kit::main(Property {
        id: "C29",
        rule: "first operand other than zero",
        assumptions: &["operations are counted in a wrapper around the scalar types; functions a user's scalar brings itself count as one", "overflowing scalar operations end a case"],
        subs,
        findings: vec![],
    })
}
