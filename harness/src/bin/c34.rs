//! C34: a wider fixed-point type of the same resolution gives the same results.
use props::*;

/// One operation on words of a type; every result as a word.
type F = fn(usize, &[i128]) -> Vec<i128>;
const OPS: [&str; 31] = ["sum", "difference", "product", "quotient", "negation", "absolute value and sign", "integer power", "phase wrap",
    "sine and cosine", "arcsine and arccosine", "arctangent", "polynomial arctangent", "polynomial sine", "polynomial cosine", "exponential", "square root", "filter root",
    "complex product", "complex quotient", "complex sum and difference", "complex with scalar", "magnitude and argument", "to polar", "to cartesian",
    "complex exponential", "polar product", "polar and cartesian", "complex power", "compound assignment", "conversions", "constants"];

fn run<T: Sgn + Conversions + fixed::traits::FixedSigned>(k: usize, c: &[i128]) -> Vec<i128> {
    let (a, b, p, q) = (T::v(c[0]), T::v(c[1]), T::v(c[2]), T::v(c[3]));
    let n = c[4] as i32;
    let (z, w) = (Cartesian { re: a, im: b }, Cartesian { re: p, im: q });
    let (r, s) = (Polar { mag: a, ang: b }, Polar { mag: p, ang: q });
    let cv = |z: Cartesian<T>| vec![z.re.w(), z.im.w()];
    let pv = |z: Polar<T>| vec![z.mag.w(), z.ang.w()];
    match k {
        0 => vec![(a + b).w()],
        1 => vec![(a - b).w()],
        2 => vec![(a * b).w()],
        3 => vec![(a / b).w()],
        4 => vec![(-a).w()],
        5 => vec![a.mixed_abs().w(), a.mixed_sign().w(), trigonometry::sign(a).w(), a.mixed_is_positive() as i128, a.mixed_is_negative() as i128],
        6 => vec![a.mixed_powi(n).w()],
        7 => vec![a.mixed_wrap_phase().w(), trigonometry::wrap_phase(a).w()],
        8 => { let (s, c) = a.mixed_sincos(); vec![a.mixed_sin().w(), a.mixed_cos().w(), s.w(), c.w()] }
        9 => vec![a.mixed_asin().w(), a.mixed_acos().w()],
        10 => vec![a.mixed_atan().w(), a.mixed_atan2(b).w()],
        11 => vec![a.mixed_atan2_poly(b).w(), trigonometry::atan::atan(a).w()],
        12 => vec![trigonometry::sin(a.mixed_wrap_phase()).w()],
        13 => vec![trigonometry::cos(a).w()],
        14 => vec![a.mixed_exp().w()],
        15 => vec![a.mixed_sqrt().w()],
        16 => vec![trigonometry::sqrt::niirf(a, 1 + n.unsigned_abs() as usize % 5).w()],
        17 => cv(z * w),
        18 => cv(z / w),
        19 => [cv(z + w), cv(z - w), cv(z.conj())].concat(),
        20 => [cv(z + 2i32), cv(z * n), cv(z / n), cv(z - 1f32)].concat(),
        21 => vec![z.mag().w(), z.arg().w(), complex::abs(z).w()],
        22 => pv(z.to_polar()),
        23 => cv(r.to_cartesian()),
        24 => cv(z.mixed_exp()),
        25 => [pv(r * s), pv(r * p), pv(r / p)].concat(),
        26 => [cv(z * s), pv(r * w)].concat(),
        27 => cv(complex::powi(z, n.unsigned_abs() as usize % 6)),
        28 => { let mut v = z; v += w; v -= n; v /= w; v *= s; cv(v) }
        30 => constant::<T>(n),
        _ => {
            let (x, y, i): (f32, f64, i64) = (a.mixed_to_num(), b.mixed_to_num(), p.mixed_to_num());
            vec![x.w(), y.w(), i.w(), T::mixed_from_num(x).w(), T::mixed_from_num(y).w(), T::mixed_from_num(n).w()]
        }
    }
}

/// One constant at a time, as not every type holds them all.
fn constant<T: Sc + MixedPi + MixedZero + MixedOne>(n: i32) -> Vec<i128> {
    vec![match n.rem_euclid(4) { 0 => T::mixed_pi(), 1 => T::mixed_tau(), 2 => T::mixed_one(), _ => T::mixed_zero() }.w()]
}

/// What unsigned types have, under the names of `OPS`.
const UNSIGNED: [usize; 10] = [0, 1, 2, 3, 5, 6, 15, 16, 29, 30];
fn run_u<T: Sc + MixedReal + MixedPi + MixedOne + MixedOps + MixedZero + MixedAbs + MixedPowi + MixedSqrt + Conversions>(k: usize, c: &[i128]) -> Vec<i128> {
    let (a, b, p) = (T::v(c[0]), T::v(c[1]), T::v(c[2]));
    let n = c[4] as i32;
    match k {
        0 => vec![(a + b).w()],
        1 => vec![(a - b).w()],
        2 => vec![(a * b).w()],
        3 => vec![(a / b).w()],
        5 => vec![a.mixed_abs().w(), a.mixed_sign().w(), trigonometry::sign(a).w(), a.mixed_is_positive() as i128, a.mixed_is_negative() as i128],
        6 => vec![a.mixed_powi(n).w()],
        15 => vec![a.mixed_sqrt().w()],
        16 => vec![trigonometry::sqrt::niirf(a, 1 + n.unsigned_abs() as usize % 5).w()],
        30 => constant::<T>(n),
        _ => {
            let (x, y, i): (f32, f64, i64) = (a.mixed_to_num(), b.mixed_to_num(), p.mixed_to_num());
            vec![x.w(), y.w(), i.w(), T::mixed_from_num(x).w(), T::mixed_from_num(y).w(), T::mixed_from_num(n).w()]
        }
    }
}

fn check(i: Info, j: Info, k: usize, f: F, g: F, c: &[i128]) -> Verdict {
    // Only a build that notices overflows tells which results the narrow type can give.
    if !cfg!(debug_assertions) { return Verdict::Skip("overflow goes unnoticed in this build") }
    // A division by zero gives the type's own maximum.
    let own = |v: &[i128]| v.iter().any(|w| *w == i.max() || i.signed && *w == i.min());
    if own(c) { return Verdict::Skip("an extreme of the narrow type") }
    if (c[2] == 0 || (c[4] << i.frac) == 0) && [20, 25].contains(&k) || [18, 28].contains(&k) && c[2] == 0 && c[3] == 0 || k == 28 && c[1] == 0 { return Verdict::Skip("division by zero") }
    let r = match guard(|| f(k, c)) { Ok(r) => r, Err(_) => return Verdict::Skip("the narrow type overflows") };
    match guard(|| g(k, c)) {
        Ok(s) if s == r => pass(r.iter().any(|w| *w != 0) && c[0] != 0, OPS[k]),
        Ok(s) => {
            if own(&r) { return Verdict::Skip("an extreme of the narrow type") }
            Verdict::Fail(format!("{}: {} gives words {r:?}, {} gives {s:?}", OPS[k], i.name, j.name))
        }
        Err(e) => Verdict::Fail(format!("{}: {} gives words {r:?}, {} panics: {e}", OPS[k], i.name, j.name)),
    }
}

fn main() {
    let mut subs = vec![];
    fn reg2(i: Info, j: Info, ks: &[usize], f: F, g: F, out: &mut Vec<Sub>) {
        for &k in ks {
            let n = 1_200;
            let s = Sub::new(format!("{} {}", OPS[k], i.name), move |c| check(i, j, k, f, g, c))
                .show(move |c| format!("{} {}: {}, exponent {}", OPS[k], i.name, c[..4].iter().map(|w| i.show(*w)).collect::<Vec<_>>().join(", "), c[4]))
                .gen(n, n * DEEP, move || {
                    let w = || mix(2, factor(&i), 1, gen::any_word(&i));
                    gen::related(&i, &[0, 1, 2, 3], gen::words(vec![w(), w(), w(), w(), gen::int(-6, 12)]))
                });
            // All pairs of 8-bit words, all 16-bit words for the operations with one operand.
            let mask = (1i128 << i.bits.min(16)) - 1;
            let word = move |k: i128| i.min() + (k & mask);
            out.push(match i.bits {
                _ if k == 30 => s,
                8 => s.sweep(1 << 16, move |k, c| { let k = k as i128; c.extend([word(k), word(k >> 8), word(k * 77 >> 7), word(k * 31 >> 5), k % 19 - 6]) }),
                16 if [4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 29].contains(&k) => s.sweep(1 << 16, move |k, c| { let k = k as i128; c.extend([word(k), word(k * 40503 >> 3), word(k * 7), 0, k % 19 - 6]) }),
                _ => s,
            });
        }
    }
    let all: Vec<usize> = (0..OPS.len()).collect();
    macro_rules! reg { ($t:ty, $u:ty) => { reg2(<$t as Sc>::I, <$u as Sc>::I, &all, run::<$t>, run::<$u>, &mut subs) } }
    widenings!(reg);
    macro_rules! regu { ($t:ty, $u:ty) => { reg2(<$t as Sc>::I, <$u as Sc>::I, &UNSIGNED, run_u::<$t>, run_u::<$u>, &mut subs) } }
    unsigned_widenings!(regu);
    kit::main(Property {
        id: "C34",
        rule: "first operand and some result other than zero",
        assumptions: &["operands and results that are extremes of the narrow type are left out, as saturation gives the type's own", "decided in the build that notices overflows"],
        subs,
        findings: vec![],
    })
}
