//! C03: compound assignment equals the plain operator over histories of steps.
use props::*;

type P = (i128, i128);
/// One step on the accumulator; plain operator or compound assignment.
type Step = fn(i128, P, i128, i128, bool) -> P;

const COMPLEX: i128 = 18;
/// Codes: 0..18 complex operands, then scalars (operator, type), then polar operands.
const SCALARS: &[&str] = &["+= i32", "+= i64", "+= u32", "+= u64", "+= f32", "+= f64", "-= i32", "-= i64", "-= u32", "-= u64", "-= f32", "-= f64",
    "/= i32", "/= i64", "/= f32", "/= f64"];
const POLAR: i128 = COMPLEX + 16;

fn scalar(w1: i128, w2: i128) -> i128 {
    if w2 & 15 == 0 { w1 } else { w1.rem_euclid(23) - 11 }
}

fn step<T: Arith>(code: i128, a: P, w1: i128, w2: i128, assign: bool) -> P {
    let mut z = cv::<T>(a.0, a.1);
    let mut b = cv::<T>(w1, w2);
    let mut n = num::Complex { re: b.re, im: b.im };
    let v = scalar(w1, w2);
    macro_rules! s {
        ($op:tt, $as:tt, $x:expr) => { if assign { z $as $x } else { z = z $op $x } };
    }
    match code {
        0 => s!(+, +=, b),
        1 => s!(+, +=, &b),
        2 => s!(+, +=, &mut b),
        3 => s!(+, +=, n),
        4 => s!(+, +=, &n),
        5 => s!(+, +=, &mut n),
        6 => s!(-, -=, b),
        7 => s!(-, -=, &b),
        8 => s!(-, -=, &mut b),
        9 => s!(-, -=, n),
        10 => s!(-, -=, &n),
        11 => s!(-, -=, &mut n),
        12 => s!(/, /=, b),
        13 => s!(/, /=, &b),
        14 => s!(/, /=, &mut b),
        15 => s!(/, /=, n),
        16 => s!(/, /=, &n),
        17 => s!(/, /=, &mut n),
        18 => s!(+, +=, v as i32),
        19 => s!(+, +=, v as i64),
        20 => s!(+, +=, v.unsigned_abs() as u32),
        21 => s!(+, +=, v.unsigned_abs() as u64),
        22 => s!(+, +=, v as f32 / 4.0),
        23 => s!(+, +=, v as f64 / 4.0),
        24 => s!(-, -=, v as i32),
        25 => s!(-, -=, v as i64),
        26 => s!(-, -=, v.unsigned_abs() as u32),
        27 => s!(-, -=, v.unsigned_abs() as u64),
        28 => s!(-, -=, v as f32 / 4.0),
        29 => s!(-, -=, v as f64 / 4.0),
        30 => s!(/, /=, v as i32),
        31 => s!(/, /=, v as i64),
        32 => s!(/, /=, v as f32 / 4.0),
        _ => s!(/, /=, v as f64 / 4.0),
    }
    cw(z)
}

fn polar<T: Sgn>(code: i128, a: P, w1: i128, w2: i128, assign: bool) -> P {
    let mut z = cv::<T>(a.0, a.1);
    let mut b = pv::<T>(w1, w2);
    match (code, assign) {
        (0, true) => z *= b,
        (1, true) => z *= &b,
        (_, true) => z *= &mut b,
        (0, false) => z = z * b,
        (1, false) => z = z * &b,
        (_, false) => z = z * &mut b,
    }
    cw(z)
}

fn name(code: i128) -> String {
    if code < COMPLEX {
        format!("{}{}", ["+=", "-=", "/="][(code / 6) as usize], ["cartesian", "&cartesian", "&mut cartesian", "num::Complex", "&num::Complex", "&mut num::Complex"][(code % 6) as usize])
    } else if code < POLAR {
        SCALARS[(code - COMPLEX) as usize].to_string()
    } else {
        format!("*={}", ["polar", "&polar", "&mut polar"][(code - POLAR) as usize])
    }
}

/// How a step's operand depends on the accumulator: in the thousands of its code.
const SELF: [&str; 6] = ["", " the accumulator itself", " its negative", " its conjugate", " its parts swapped", " its double real part"];
fn operands(i: &Info, z: P, s: &[i128]) -> [i128; 3] {
    let (x, y) = z;
    let (u, v) = match s[0] / 1000 {
        0 => (s[1], s[2]),
        1 => (x, y),
        2 => (gen::negated(i, x), gen::negated(i, y)),
        3 => (x, gen::negated(i, y)),
        4 => (y, x),
        _ => (x, x),
    };
    [s[0] % 1000, u, v]
}

fn check(i: Info, step: Step, polar: Option<Step>, c: &[i128]) -> Verdict {
    let mut z = (c[0], c[1]);
    let mut done = 0;
    let mut moved = 0;
    for (k, s) in c[2..].chunks(3).enumerate() {
        let s = &operands(&i, z, s);
        let (f, code) = if s[0] < POLAR { (step, s[0]) } else { (polar.unwrap(), s[0] - POLAR) };
        // A step whose plain form is not defined for these operands (an overflow) is left out.
        let Ok(want) = guard(|| f(code, z, s[1], s[2], false)) else { continue };
        let got = match guard(|| f(code, z, s[1], s[2], true)) {
            Ok(g) => g,
            Err(e) => fail!("step {k} {}: the plain operator gives {} but the assignment panics: {e}", name(s[0]), show2(&i, want)),
        };
        if !same2(&i, got, want) {
            fail!("step {k} {}: on {} the plain operator gives {} but the assignment leaves {}", name(s[0]), show2(&i, z), show2(&i, want), show2(&i, got))
        }
        done += 1;
        if !same(&i, got.0, z.0) || !same(&i, got.1, z.1) { moved += 1 }
        z = got;
    }
    if done == 0 { return Verdict::Skip("no step defined for these operands"); }
    pass(moved >= 2, if moved >= 2 { "history, two or more effective steps" } else { "short history" })
}

fn register(i: Info, step: Step, polar: Option<Step>, out: &mut Vec<Sub>) {
    let n = if i.kind == Kind::Fx { 5_000 } else { 20_000 };
    let top = if polar.is_some() { POLAR + 2 } else { POLAR - 1 };
    out.push(
        Sub::new(format!("history {}", i.name), move |c| check(i, step, polar, c))
            .gen(n, n * DEEP, move || {
                let one = if i.is_float() { 4 } else { i.one().min(i.max()) };
                let comp = if i.is_float() { mix(4, gen::float_mid(&i, 8), 1, gen::any_word(&i)) } else { mix(3, gen::fx_range(&i, -one, one), 1, gen::any_word(&i)) };
                let comp2 = comp.clone();
                let code = mix(3, gen::int(0, top), 1, gen::int(COMPLEX, POLAR - 1));
                // Some complex and polar operands depend on the accumulator.
                let st = (code, mix(6, gen::just(0), 1, gen::int(1, 5)), comp.clone(), comp).prop_map(|(a, r, b, c)| [if a < COMPLEX || a >= POLAR { a + 1000 * r } else { a }, b, c]);
                ((comp2.clone(), comp2), kit::vec_of(st, 1, 9)).prop_map(|(a, s)| {
                    let mut v = vec![a.0, a.1];
                    for x in s { v.extend(x) }
                    v
                }).boxed()
            })
            .show(move |c| {
                let mut s = format!("{}: {}", i.name, show2(&i, (c[0], c[1])));
                for t in c[2..].chunks(3) {
                    if t[0] >= 1000 { s += &format!("; {}{}", name(t[0] % 1000), SELF[(t[0] / 1000) as usize]); continue }
                    if t[0] >= COMPLEX && t[0] < POLAR {
                        let v = scalar(t[1], t[2]);
                        s += &format!("; {} {}", name(t[0]), if name(t[0]).contains('f') { format!("{}", v as f64 / 4.0) } else { v.to_string() });
                    } else {
                        s += &format!("; {} {}", name(t[0]), show2(&i, (t[1], t[2])));
                    }
                }
                s
            }),
    );
}

fn main() {
    let mut subs = vec![];
    macro_rules! reals { ($t:ty, $($r:tt)*) => { register(<$t as Sc>::I, step::<$t>, Some(polar::<$t>), &mut subs) } }
    macro_rules! ints { ($t:ty, $($r:tt)*) => { register(<$t as Sc>::I, step::<$t>, None, &mut subs) } }
    signed_reals!(reals);
    signed_int!(ints);
    kit::main(Property {
        id: "C03",
        rule: "at least two steps of the history are defined for their operands and change the accumulator",
        assumptions: &["steps whose plain operator panics on an overflow are left out of the history"],
        subs,
        findings: vec![],
    })
}
