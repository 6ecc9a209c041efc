//! C35: floating-point operations are total and keep NaN visible.
use props::*;

/// Every operation of one and two real, and two complex operands.
const ONE: [&str; 41] = ["sin", "cos", "sine of sincos", "cosine of sincos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
    "exp", "exp2", "exp10", "log", "log2", "log10", "sqrt", "cbrt", "ceil", "floor", "mag2db", "db2mag", "pow2db", "db2pow", "abs", "wrap", "free wrap",
    "polynomial sin", "polynomial cos", "polynomial atan", "filter root", "filter root of 5 iterations", "powi 1", "powi 3", "powi -2", "negation", "conversion"];
const TWO: [&str; 5] = ["atan2", "polynomial atan2", "free polynomial atan2", "free power", "pow"];
const COMPLEX: [&str; 20] = ["sum", "difference", "product", "quotient", "free product", "free quotient", "conjugate", "conjugate, polar", "with scalar", "over scalar",
    "magnitude", "argument", "to polar", "to cartesian", "exponential", "polar product", "polar over scalar", "cartesian times polar", "polar times cartesian", "assignment"];

type F = fn(usize, &[i128]) -> Vec<i128>;
macro_rules! ops { ($one:ident, $two:ident, $complex:ident, $t:ty) => {
    fn $one(k: usize, c: &[i128]) -> Vec<i128> {
        let a = <$t>::v(c[0]);
        vec![match k {
            0 => a.mixed_sin(), 1 => a.mixed_cos(), 2 => a.mixed_sincos().0, 3 => a.mixed_sincos().1, 4 => a.mixed_tan(), 5 => a.mixed_asin(), 6 => a.mixed_acos(),
            7 => a.mixed_atan(), 8 => a.mixed_sinh(), 9 => a.mixed_cosh(), 10 => a.mixed_tanh(), 11 => a.mixed_asinh(), 12 => a.mixed_acosh(), 13 => a.mixed_atanh(),
            14 => a.mixed_exp(), 15 => a.mixed_exp2(), 16 => a.mixed_exp10(), 17 => a.mixed_log(), 18 => a.mixed_log2(), 19 => a.mixed_log10(), 20 => a.mixed_sqrt(),
            21 => a.mixed_cbrt(), 22 => a.mixed_ceil(), 23 => a.mixed_floor(), 24 => a.mixed_mag2db(), 25 => a.mixed_db2mag(), 26 => a.mixed_pow2db(), 27 => a.mixed_db2pow(),
            28 => a.mixed_abs(), 29 => a.mixed_wrap_phase(), 30 => trigonometry::wrap_phase(a), 31 => trigonometry::sin(a), 32 => trigonometry::cos(a),
            33 => trigonometry::atan::atan(a), 34 => a.mixed_niirf(), 35 => trigonometry::sqrt::niirf(a, 5), 36 => a.mixed_powi(1), 37 => a.mixed_powi(3), 38 => a.mixed_powi(-2),
            39 => -a, _ => { let d: f64 = a.mixed_to_num(); <$t>::mixed_from_num(d) }
        }.w()]
    }
    fn $two(k: usize, c: &[i128]) -> Vec<i128> {
        let (a, b) = (<$t>::v(c[0]), <$t>::v(c[1]));
        vec![match k {
            0 => a.mixed_atan2(b), 1 => a.mixed_atan2_poly(b), 2 => trigonometry::atan::atan2(a, b), 3 => trigonometry::powi(a * b, 3), _ => a.mixed_pow(b),
        }.w()]
    }
    fn $complex(k: usize, c: &[i128]) -> Vec<i128> {
        let (a, b, p, q) = (<$t>::v(c[0]), <$t>::v(c[1]), <$t>::v(c[2]), <$t>::v(c[3]));
        let (z, w, r, s) = (Cartesian::new(a, b), Cartesian::new(p, q), Polar::new(a, b), Polar::new(p, q));
        let cv = |z: Cartesian<$t>| vec![z.re.w(), z.im.w()];
        let pv = |z: Polar<$t>| vec![z.mag.w(), z.ang.w()];
        match k {
            0 => cv(z + w), 1 => cv(z - w), 2 => cv(z * w), 3 => cv(z / w), 4 => cv(mul_cartesian(z, w)), 5 => cv(div_cartesian(z, w)),
            6 => cv(z.conj()), 7 => pv(r.conj()), 8 => cv(z * p), 9 => cv(z / p), 10 => vec![z.mag().w()], 11 => vec![z.arg().w()], 12 => pv(z.to_polar()), 13 => cv(r.to_cartesian()),
            14 => cv(z.mixed_exp()), 15 => pv(r * s), 16 => pv(r / p), 17 => cv(z * s), 18 => pv(r * w), _ => { let mut v = z; v += w; v -= w; cv(v) }
        }
    }
} }
ops!(one32, two32, complex32, f32);
ops!(one64, two64, complex64, f64);

/// Which operands each result depends on, for every value of the others, as bits.
fn depends(group: usize, k: usize) -> [u8; 2] {
    match (group, k) {
        (0, _) => [1, 0],
        (1, _) => [3, 0],
        (_, 0 | 1 | 19) => [0b0101, 0b1010],
        (_, 2 | 3 | 4 | 5 | 17) => [15, 15],
        (_, 6 | 7) => [1, 2],
        (_, 8 | 9) => [0b0101, 0b0110],
        (_, 10 | 11) => [3, 0],
        (_, 12 | 13 | 14) => [3, 3],
        (_, 15) => [0b0101, 0b1010],
        (_, 16) => [0b0101, 2],
        (_, _) => [0b1101, 0b1110],
    }
}

fn check(i: Info, group: usize, k: usize, f: F, c: &[i128]) -> Verdict {
    let r = match guard(|| f(k, c)) { Ok(r) => r, Err(e) => fail!("panics: {e}") };
    let nan: u8 = (0..4).map(|n| ((n < c.len() && i.f(c[n]).is_nan()) as u8) << n).sum();
    let zero = |n: usize| i.f(c[n]) == 0.0;
    // Squares of smaller numbers vanish, and with them the magnitude.
    let small = if i.kind == Kind::F32 { 1e-18 } else { 1e-150 };
    // One to any power, any number to the power 0, division by zero, the polynomial arctangent on the axes and the zero magnitude are what they are.
    let fixed = match (group, k) {
        (1, 1 | 2) => zero(0) || zero(1),
        (1, 4) => i.f(c[0]) == 1.0 || zero(1),
        (2, 9 | 16) => zero(2),
        (2, 3 | 5) => zero(2) && zero(3),
        (2, 15) => zero(0) || zero(2),
        (2, 18) => zero(0) || i.f(c[2]).abs() < small && i.f(c[3]).abs() < small,
        _ => false,
    };
    let dep = depends(group, k);
    if !fixed { for (n, w) in r.iter().enumerate() { if nan & dep[n] != 0 && !i.f(*w).is_nan() { fail!("result {n} is {}, though an operand is NaN", i.show(*w)) } } }
    let finite = c.iter().all(|w| i.f(*w).is_finite());
    pass(!finite, if nan != 0 { "NaN" } else if !finite { "infinity" } else { "finite" })
}

fn main() {
    let mut subs = vec![];
    for (i, fs) in [(<f32 as Sc>::I, [one32 as F, two32, complex32]), (<f64 as Sc>::I, [one64, two64, complex64])] {
        for (g, f) in fs.into_iter().enumerate() {
            let names: &[&str] = [&ONE[..], &TWO, &COMPLEX][g];
            for k in 0..names.len() {
                let n = 6_000;
                let args = [1, 2, 4][g];
                subs.push(Sub::new(format!("{} {}", names[k], i.name), move |c| check(i, g, k, f, c)).show(show_words(i)).gen(n, n * DEEP, move || {
                    let special = gen::pick([f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE].iter().map(|x| i.w(*x)).collect());
                    let w = || mix(2, gen::any_word(&i), 1, special.clone());
                    gen::words((0..args).map(|_| w()).collect())
                }));
            }
        }
    }
    kit::main(Property {
        id: "C35",
        rule: "some operand infinite or NaN",
        assumptions: &["pow(1, NaN), pow(NaN, 0), division by zero, the polynomial arctangent on the axes and the product with zero magnitude are excepted", "the sign function is decided by C16"],
        subs,
        findings: vec![],
    })
}
