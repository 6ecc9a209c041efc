//! C05: division of complex numbers by real zero saturates.
use props::*;

type P = (i128, i128);
const FORMS: &[&str] = &["z / 0i32", "z / 0i64", "z / 0f32", "z / -0f32", "z / 0f64", "z / -0f64",
    "z /= 0i32", "z /= 0i64", "z /= 0f32", "z /= -0f32", "z /= 0f64", "z /= -0f64", "div_scalar_cartesian(z, 0)", "div_scalar_cartesian(z, -0)", "polar / 0", "polar / -0"];
const MORE: &[&str] = &["z / 0i8", "z / 0i16", "z / 0i128", "z / 0isize", "z /= 0i8", "z /= 0i16", "z /= 0i128", "z /= 0isize"];

fn div<T: Arith>(form: i128, z: P) -> P {
    let a = cv::<T>(z.0, z.1);
    let mut b = a;
    match form {
        0 => cw(a / 0i32),
        1 => cw(a / 0i64),
        2 => cw(a / 0f32),
        3 => cw(a / -0f32),
        4 => cw(a / 0f64),
        5 => cw(a / -0f64),
        6 => { b /= 0i32; cw(b) }
        7 => { b /= 0i64; cw(b) }
        8 => { b /= 0f32; cw(b) }
        9 => { b /= -0f32; cw(b) }
        10 => { b /= 0f64; cw(b) }
        11 => { b /= -0f64; cw(b) }
        12 => cw(div_scalar_cartesian(a, T::mixed_zero())),
        13 => cw(div_scalar_cartesian(a, -T::mixed_zero())),
        14 => pw(Polar::new(a.re, a.im) / T::mixed_zero()),
        _ => pw(Polar::new(a.re, a.im) / (-T::mixed_zero())),
    }
}
/// Components of unsigned types: the divisor is signed.
const UNSIGNED: &[&str] = &["z / 0i32", "z / 0i64", "z / 0f32", "z / -0f32", "z / 0f64", "z / -0f64",
    "z /= 0i32", "z /= 0i64", "z /= 0f32", "z /= -0f32", "z /= 0f64", "z /= -0f64"];
fn div_unsigned<T: Sc + MixedReal + MixedOps + MixedZero>(form: i128, z: P) -> P {
    let a = cv::<T>(z.0, z.1);
    let mut b = a;
    match form {
        0 => b = a / 0i32,
        1 => b = a / 0i64,
        2 => b = a / 0f32,
        3 => b = a / -0f32,
        4 => b = a / 0f64,
        5 => b = a / -0f64,
        6 => b /= 0i32,
        7 => b /= 0i64,
        8 => b /= 0f32,
        9 => b /= -0f32,
        10 => b /= 0f64,
        _ => b /= -0f64,
    }
    cw(b)
}
macro_rules! more {
    ($t:ty) => {
        |form: i128, z: P| {
            let a = cv::<$t>(z.0, z.1);
            let mut b = a;
            match form {
                0 => cw(a / 0i8),
                1 => cw(a / 0i16),
                2 => cw(a / 0i128),
                3 => cw(a / 0isize),
                4 => { b /= 0i8; cw(b) }
                5 => { b /= 0i16; cw(b) }
                6 => { b /= 0i128; cw(b) }
                _ => { b /= 0isize; cw(b) }
            }
        }
    };
}

fn check(i: Info, forms: &'static [&'static str], f: fn(i128, P) -> P, c: &[i128]) -> Verdict {
    let name = forms[c[0] as usize];
    let z = (c[1], c[2]);
    let max = if i.is_float() { i.w(huge(&i)) } else if i.bits == 128 && !i.signed { u128::MAX as i128 } else { i.max() };
    let want = if name.starts_with("polar") { (max, c[2]) } else { (max, max) };
    let got = match guard(|| f(c[0], z)) {
        Ok(g) => g,
        Err(e) => fail!("{name} on {} panics: {e}", show2(&i, z)),
    };
    if !same2(&i, got, want) { fail!("{name} on {} gives {}, expected {}", show2(&i, z), show2(&i, got), show2(&i, want)) }
    pass(i.f(c[1]) != 0.0 && i.f(c[2]) != 0.0, if name.starts_with("polar") { "polar" } else if name.contains("/=") { "assignment" } else { "operator or function" })
}

fn register(i: Info, forms: &'static [&'static str], f: fn(i128, P) -> P, n: u64, out: &mut Vec<Sub>) {
    out.push(
        Sub::new(format!("zero divisor {} {}", i.name, forms[0]), move |c| check(i, forms, f, c))
            .gen(n, n * DEEP, move || gen::related(&i, &[1, 2], gen::words(vec![gen::int(0, forms.len() as i128 - 1), gen::any_word(&i), gen::any_word(&i)])))
            .show(move |c| format!("{}: {} on {}", i.name, forms[c[0] as usize], show2(&i, (c[1], c[2])))),
    );
}

fn main() {
    let mut subs = vec![];
    macro_rules! reg { ($t:ty, $($r:tt)*) => { register(<$t as Sc>::I, FORMS, div::<$t>, 20_000, &mut subs) } }
    signed_reals!(reg);
    signed_int!(reg);
    macro_rules! reg { ($t:ty, $($r:tt)*) => { register(<$t as Sc>::I, UNSIGNED, div_unsigned::<$t>, 4_000, &mut subs) } }
    unsigned_fixed!(reg);
    unsigned_int!(reg);
    use fixed::types::extra::*;
    macro_rules! all { ($($t:ty),*) => { $( register(<$t as Sc>::I, MORE, more!($t), 50_000, &mut subs); )* } }
    all!(f32, f64, i8, i16, i32, i64, i128, isize, fixed::FixedI32<U16>, fixed::FixedI16<U5>, fixed::FixedI64<U40>, fixed::FixedI8<U2>);
    kit::main(Property {
        id: "C05",
        rule: "both components of the dividend non-zero",
        assumptions: &[],
        subs,
        findings: vec![],
    })
}
